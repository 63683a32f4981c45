From aab2e59b8e527ba86d19b5b37739cb0d9fe21206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 01/11] fix: xxhash::update counts the whole input size

The size of every update was truncated to 8 bits before it was added to
the message length, so any single update of 256 bytes or more gave a
wrong digest.
---
 include/cthash-single-header.hpp | 2 +-
 include/cthash/xxhash.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 1691958..ec3cf05 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2856,7 +2856,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<uint8_t>(input.size());
+		length += static_cast<value_type>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 6a0db64..7708e16 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -162,7 +162,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<uint8_t>(input.size());
+		length += static_cast<value_type>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
-- 
2.43.0


From f3cb508efa6fc8397435673673fdcbec6cbe9fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 02/11] fix: xxhash32 keeps a 64-bit message length

With a 32-bit counter a message whose length is just above a multiple of
4 GiB was mistaken for a short one and its lanes were ignored.
---
 include/cthash-single-header.hpp | 6 +++---
 include/cthash/xxhash.hpp        | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index ec3cf05..aa1b046 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2824,7 +2824,7 @@ template <size_t Bits> struct xxhash {
 
 	// members
 	value_type seed{0u};
-	value_type length{0u};
+	uint64_t length{0u};
 	acc_array internal_state{};
 	std::array<std::byte, sizeof(value_type) * 4u> buffer{};
 
@@ -2856,7 +2856,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<value_type>(input.size());
+		length += static_cast<uint64_t>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
@@ -2892,7 +2892,7 @@ template <size_t Bits> struct xxhash {
 	}
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
-		length = static_cast<value_type>(input.size());
+		length = static_cast<uint64_t>(input.size());
 		process_blocks(input);
 		tagged_hash_value<tag> output;
 		final_from(input, output);
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 7708e16..066e848 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -130,7 +130,7 @@ template <size_t Bits> struct xxhash {
 
 	// members
 	value_type seed{0u};
-	value_type length{0u};
+	uint64_t length{0u};
 	acc_array internal_state{};
 	std::array<std::byte, sizeof(value_type) * 4u> buffer{};
 
@@ -162,7 +162,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<value_type>(input.size());
+		length += static_cast<uint64_t>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
@@ -200,7 +200,7 @@ template <size_t Bits> struct xxhash {
 	// TODO: any range with value convertible to byte
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
-		length = static_cast<value_type>(input.size());
+		length = static_cast<uint64_t>(input.size());
 		process_blocks(input);
 		tagged_hash_value<tag> output;
 		final_from(input, output);
-- 
2.43.0


From f96d688e8b536c8b4d24c28d014c0eaec2272fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 03/11] fix: no sign extension when reading signed bytes in
 constant evaluation

Bytes with the top bit set held in signed character types were sign
extended, so digests computed at compile time differed from those
computed at run time.
---
 include/cthash-single-header.hpp    | 4 ++--
 include/cthash/internal/convert.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index aa1b046..2d856a1 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1401,7 +1401,7 @@ template <typename It1, typename It2, typename It3> constexpr auto byte_copy(It1
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<std::byte>(in[Idx])) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -1417,7 +1417,7 @@ template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_byt
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_le_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << static_cast<T>(Idx * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<std::byte>(in[Idx])) << static_cast<T>(Idx * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
diff --git a/include/cthash/internal/convert.hpp b/include/cthash/internal/convert.hpp
index d75ddcc..16ac33f 100644
--- a/include/cthash/internal/convert.hpp
+++ b/include/cthash/internal/convert.hpp
@@ -18,7 +18,7 @@ template <typename It1, typename It2, typename It3> constexpr auto byte_copy(It1
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<std::byte>(in[Idx])) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -34,7 +34,7 @@ template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_byt
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_le_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << static_cast<T>(Idx * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<std::byte>(in[Idx])) << static_cast<T>(Idx * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
-- 
2.43.0


From 8276d1c40b7cd134c627ca2e100aae5f60251172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 04/11] fix: reject encoding names longer than any known one

Only the first characters of the name were compared, so a name which
extends the longest known name (base64_no_paddingXYZ) was accepted.
---
 include/cthash-single-header.hpp      | 7 +++++--
 include/cthash/encoding/encodings.hpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 2d856a1..78e5891 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -776,10 +776,13 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		if (out != buffer.end()) {
-			*out++ = c;
+		// longer than any known name
+		if (out == buffer.end()) {
+			throw std::invalid_argument{"unknown encoding name"};
 		}
 
+		*out++ = c;
+
 		++it;
 	}
 
diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index 37508da..0d8b176 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -188,10 +188,13 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		if (out != buffer.end()) {
-			*out++ = c;
+		// longer than any known name
+		if (out == buffer.end()) {
+			throw std::invalid_argument{"unknown encoding name"};
 		}
 
+		*out++ = c;
+
 		++it;
 	}
 
-- 
2.43.0


From 3df7d465ea03f451400e91f0840faa124371e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 05/11] fix: arrays of std::byte or (un)signed char are not
 string literals

Such an array was taken for a string literal and its last byte was
silently left out of the digest.
---
 include/cthash-single-header.hpp     | 4 +++-
 include/cthash/internal/concepts.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 78e5891..869d35b 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1368,7 +1368,9 @@ template <typename T> concept one_byte_char = (sizeof(T) == 1u);
 
 template <typename T> concept byte_like = (sizeof(T) == 1u) && (std::same_as<T, char> || std::same_as<T, unsigned char> || std::same_as<T, char8_t> || std::same_as<T, std::byte> || std::same_as<T, uint8_t> || std::same_as<T, int8_t>);
 
-template <one_byte_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
+template <one_byte_char CharT, size_t N>
+requires(std::same_as<CharT, char> || std::same_as<CharT, char8_t>) // only these can hold a string literal
+void string_literal_helper(const CharT (&)[N]);
 
 template <typename T> concept string_literal = requires(const T & in) //
 {
diff --git a/include/cthash/internal/concepts.hpp b/include/cthash/internal/concepts.hpp
index c653670..179ced4 100644
--- a/include/cthash/internal/concepts.hpp
+++ b/include/cthash/internal/concepts.hpp
@@ -9,7 +9,9 @@ template <typename T> concept one_byte_char = (sizeof(T) == 1u);
 
 template <typename T> concept byte_like = (sizeof(T) == 1u) && (std::same_as<T, char> || std::same_as<T, unsigned char> || std::same_as<T, char8_t> || std::same_as<T, std::byte> || std::same_as<T, uint8_t> || std::same_as<T, int8_t>);
 
-template <one_byte_char CharT, size_t N> void string_literal_helper(const CharT (&)[N]);
+template <one_byte_char CharT, size_t N>
+requires(std::same_as<CharT, char> || std::same_as<CharT, char8_t>) // only these can hold a string literal
+void string_literal_helper(const CharT (&)[N]);
 
 template <typename T> concept string_literal = requires(const T & in) //
 {
-- 
2.43.0


From 3aebbf1a75f864267eb7c01b27975a4a1f016af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:43 +0000
Subject: [PATCH 06/11] fix: do not narrow the characters of wide encoding
 names

Only the low 8 bits of each character were compared, so wide format
strings with other characters (L"{:\u0162ase64}") were accepted.
---
 include/cthash-single-header.hpp      | 9 +++++----
 include/cthash/encoding/encodings.hpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 869d35b..2acb0ca 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -770,14 +770,15 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		const char c = *it;
+		const auto character = *it;
+		const char c = static_cast<char>(character);
 
-		if (c == '}') {
+		if (character == '}') {
 			break;
 		}
 
-		// longer than any known name
-		if (out == buffer.end()) {
+		// longer than any known name or not representable in any of them
+		if (out == buffer.end() || character != c) {
 			throw std::invalid_argument{"unknown encoding name"};
 		}
 
diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index 0d8b176..7a2e6d1 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -182,14 +182,15 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		const char c = *it;
+		const auto character = *it;
+		const char c = static_cast<char>(character);
 
-		if (c == '}') {
+		if (character == '}') {
 			break;
 		}
 
-		// longer than any known name
-		if (out == buffer.end()) {
+		// longer than any known name or not representable in any of them
+		if (out == buffer.end() || character != c) {
 			throw std::invalid_argument{"unknown encoding name"};
 		}
 
-- 
2.43.0


From 82d7193ab682fe53e222f3bd933485d1bf416313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 07/11] fix: pushing values as wide as the bit buffer's storage

---
 include/cthash-single-header.hpp       | 10 ++++++----
 include/cthash/encoding/bit-buffer.hpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 2acb0ca..db8d467 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -184,7 +184,8 @@ public:
 	size_type bits_available{0};
 
 public:
-	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>((static_cast<storage_type>(1u) << Bits) - 1u);
+	static constexpr size_t storage_bits = sizeof(storage_type) * 8u;
+	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>(static_cast<storage_type>(~static_cast<storage_type>(0u)) >> (storage_bits - Bits));
 
 	constexpr friend bool operator==(const basic_bit_buffer & lhs, const basic_bit_buffer & rhs) noexcept = default;
 
@@ -206,11 +207,12 @@ public:
 
 	template <size_t Bits> constexpr void push(select_bit_integer_t<Bits> in) noexcept requires(Bits <= capacity()) {
 		assert(size() <= capacity() - Bits);
-		buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
-		bits_available += static_cast<size_type>(Bits);
+		// shifting by the whole width of the storage is undefined
+		push_empty_bits(Bits);
+		buffer |= static_cast<storage_type>(in);
 	}
 	constexpr void push_empty_bits(size_t count) noexcept {
-		buffer = static_cast<storage_type>(buffer << count);
+		buffer = (count < storage_bits) ? static_cast<storage_type>(buffer << count) : storage_type{0u};
 		bits_available += static_cast<unsigned char>(count);
 	}
 
diff --git a/include/cthash/encoding/bit-buffer.hpp b/include/cthash/encoding/bit-buffer.hpp
index 3f9dab6..74c52a0 100644
--- a/include/cthash/encoding/bit-buffer.hpp
+++ b/include/cthash/encoding/bit-buffer.hpp
@@ -47,7 +47,8 @@ public:
 	size_type bits_available{0};
 
 public:
-	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>((static_cast<storage_type>(1u) << Bits) - 1u);
+	static constexpr size_t storage_bits = sizeof(storage_type) * 8u;
+	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>(static_cast<storage_type>(~static_cast<storage_type>(0u)) >> (storage_bits - Bits));
 
 	constexpr friend bool operator==(const basic_bit_buffer & lhs, const basic_bit_buffer & rhs) noexcept = default;
 
@@ -69,11 +70,12 @@ public:
 
 	template <size_t Bits> constexpr void push(select_bit_integer_t<Bits> in) noexcept requires(Bits <= capacity()) {
 		assert(size() <= capacity() - Bits);
-		buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
-		bits_available += static_cast<size_type>(Bits);
+		// shifting by the whole width of the storage is undefined
+		push_empty_bits(Bits);
+		buffer |= static_cast<storage_type>(in);
 	}
 	constexpr void push_empty_bits(size_t count) noexcept {
-		buffer = static_cast<storage_type>(buffer << count);
+		buffer = (count < storage_bits) ? static_cast<storage_type>(buffer << count) : storage_type{0u};
 		bits_available += static_cast<unsigned char>(count);
 	}
 
-- 
2.43.0


From db22aae569e88f7aee6c1810e006ee867cfd30a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 08/11] fix: the single header includes <cstdint>

Included on its own it used uint8_t before declaring it and did not compile.
---
 include/cthash-single-header.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index db8d467..8f2ab45 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -116,6 +116,7 @@ template <typename CharT, size_t N> fixed_string(const CharT (&)[N]) -> fixed_st
 
 #include <ranges>
 #include <concepts>
+#include <cstdint>
 
 namespace cthash {
 
-- 
2.43.0


From 20e1f55d12c30d418c623ea3ebb106ed97687e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 09/11] fix: checksum reads what it cannot map

---
 checksum.cpp | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/checksum.cpp b/checksum.cpp
index eab5903..168ead7 100644
--- a/checksum.cpp
+++ b/checksum.cpp
@@ -4,6 +4,7 @@
 #include <sys/mman.h>
 #include <unistd.h>
 #include <iostream>
+#include <vector>
 
 struct mapped_file {
 	static constexpr int invalid = -1;
@@ -27,7 +28,9 @@ struct mapped_file {
 
 	~mapped_file() {
 		if (ptr && fd != invalid) {
-			munmap(ptr, sz);
+			if (content.empty()) {
+				munmap(ptr, sz);
+			}
 			close(fd);
 		}
 	}
@@ -35,6 +38,34 @@ struct mapped_file {
 	auto get_span() const noexcept {
 		return std::span<const std::byte>(reinterpret_cast<std::byte *>(ptr), sz);
 	}
+
+	// not everything readable has a size or can be mapped (pipes, /proc)
+	std::vector<std::byte> content{};
+
+	void read_if_not_mapped() {
+		if (fd == invalid || (sz != 0 && ptr != MAP_FAILED)) {
+			return;
+		}
+
+		lseek(fd, 0, SEEK_SET);
+		ssize_t r = 0;
+
+		for (sz = 0;; sz += static_cast<size_t>(r)) {
+			content.resize(sz + 65536u);
+			r = read(fd, content.data() + sz, content.size() - sz);
+
+			if (r <= 0) {
+				break;
+			}
+		}
+
+		if (r < 0) {
+			close(fd);
+			fd = invalid;
+		}
+
+		ptr = content.data();
+	}
 };
 
 int main(int argc, char ** argv) {
@@ -47,7 +78,8 @@ int main(int argc, char ** argv) {
 	}
 
 	const auto h = std::string_view(argv[1]);
-	const auto f = mapped_file(argv[2]);
+	auto f = mapped_file(argv[2]);
+	f.read_if_not_mapped();
 
 	if (f.fd == mapped_file::invalid) {
 		std::cerr << "can't open file!\n";
-- 
2.43.0


From 3610e5988da81ce30ea9425451b6660e10dc130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 10/11] fix: xxhash::update_and_final continues from what was
 fed before

---
 include/cthash-single-header.hpp | 6 +-----
 include/cthash/xxhash.hpp        | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 8f2ab45..e614256 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2901,11 +2901,7 @@ template <size_t Bits> struct xxhash {
 	}
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
-		length = static_cast<uint64_t>(input.size());
-		process_blocks(input);
-		tagged_hash_value<tag> output;
-		final_from(input, output);
-		return output;
+		return update(input).final();
 	}
 
 	template <one_byte_char CharT> [[gnu::flatten]] constexpr auto update_and_final(std::basic_string_view<CharT> input) noexcept {
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 066e848..4135ee7 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -200,11 +200,7 @@ template <size_t Bits> struct xxhash {
 	// TODO: any range with value convertible to byte
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
-		length = static_cast<uint64_t>(input.size());
-		process_blocks(input);
-		tagged_hash_value<tag> output;
-		final_from(input, output);
-		return output;
+		return update(input).final();
 	}
 
 	template <one_byte_char CharT> [[gnu::flatten]] constexpr auto update_and_final(std::basic_string_view<CharT> input) noexcept {
-- 
2.43.0


From f4eada230f92faa5f978e526c6f1385efb16b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:57 +0000
Subject: [PATCH 11/11] fix: encode_to_view::to_string compiles without
 std::ranges::to and with assertions on

---
 include/cthash/encoding/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cthash/encoding/base.hpp b/include/cthash/encoding/base.hpp
index 745130d..7bdb57b 100644
--- a/include/cthash/encoding/base.hpp
+++ b/include/cthash/encoding/base.hpp
@@ -93,7 +93,7 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 		auto result = std::basic_string<CharT>{};
 		result.resize(size());
 		auto [i, o] = std::ranges::copy(begin(), end(), result.begin());
-		assert(i == encoded.end());
+		assert(i == end());
 		assert(o == result.end());
 		return result;
 #endif
-- 
2.43.0

