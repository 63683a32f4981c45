------------------------------- MODULE ZeroKat -------------------------------
(* Known answers for messages of n zero bytes (OpenSSL; xxHash: a direct    *)
(* loop over its specification, run/gen_zerokat.py).                        *)
(* <<name of the checksum tool, n as a 64-bit word, digest>>                *)
ZeroKats == {
  <<"sha-224", <<73, 8192, 0, 0>>, <<210, 91, 97, 112, 213, 41, 203, 90, 250, 103, 38, 8, 131, 129, 14, 51, 211, 104, 68, 234, 37, 18, 86, 215, 205, 26, 195, 73>>>>,
  <<"sha-256", <<73, 8192, 0, 0>>, <<165, 191, 166, 250, 173, 187, 145, 129, 249, 94, 250, 165, 15, 186, 48, 27, 74, 57, 26, 43, 178, 120, 211, 77, 103, 147, 55, 4, 78, 18, 174, 193>>>>,
  <<"sha-384", <<73, 8192, 0, 0>>, <<112, 73, 91, 172, 234, 178, 52, 167, 89, 208, 90, 198, 8, 45, 153, 228, 161, 243, 14, 188, 5, 96, 186, 215, 142, 71, 169, 155, 2, 139, 243, 181, 255, 149, 215, 180, 202, 60, 85, 152, 168, 118, 193, 61, 231, 52, 192, 239>>>>,
  <<"sha-512", <<73, 8192, 0, 0>>, <<153, 34, 112, 181, 21, 217, 24, 35, 195, 38, 111, 181, 193, 63, 239, 187, 24, 54, 81, 221, 178, 195, 67, 89, 144, 65, 156, 157, 198, 107, 251, 14, 197, 185, 158, 158, 97, 239, 48, 14, 64, 19, 45, 129, 182, 56, 180, 38, 230, 115, 14, 193, 159, 236, 83, 125, 143, 91, 100, 59, 74, 149, 122, 152>>>>,
  <<"sha-512/224", <<73, 8192, 0, 0>>, <<93, 107, 50, 223, 153, 119, 110, 204, 114, 50, 49, 163, 252, 140, 33, 110, 24, 97, 163, 75, 4, 50, 249, 231, 44, 241, 60, 149>>>>,
  <<"sha-512/256", <<73, 8192, 0, 0>>, <<34, 132, 120, 223, 252, 21, 25, 151, 162, 249, 9, 81, 118, 198, 227, 10, 128, 198, 174, 56, 192, 183, 138, 245, 33, 144, 171, 240, 181, 147, 228, 155>>>>,
  <<"sha3-256", <<73, 8192, 0, 0>>, <<95, 198, 236, 70, 238, 221, 2, 192, 84, 43, 130, 167, 13, 25, 242, 211, 181, 80, 157, 132, 106, 0, 151, 130, 246, 152, 194, 66, 69, 44, 212, 133>>>>,
  <<"sha3-512", <<73, 8192, 0, 0>>, <<1, 31, 108, 13, 181, 34, 222, 160, 78, 244, 229, 26, 166, 101, 58, 250, 190, 178, 98, 178, 194, 154, 94, 205, 253, 13, 13, 159, 237, 136, 106, 183, 33, 73, 110, 115, 0, 209, 179, 64, 74, 141, 250, 146, 69, 141, 19, 238, 186, 144, 248, 163, 210, 106, 174, 244, 39, 87, 64, 12, 219, 73, 86, 79>>>>,
  <<"shake-128/256", <<73, 8192, 0, 0>>, <<144, 28, 148, 2, 196, 197, 160, 184, 154, 152, 223, 104, 17, 116, 217, 105, 133, 5, 224, 19, 190, 139, 54, 96, 59, 56, 148, 81, 58, 74, 33, 6>>>>,
  <<"shake-256/512", <<73, 8192, 0, 0>>, <<179, 225, 12, 149, 20, 6, 190, 119, 71, 121, 183, 125, 136, 7, 119, 163, 66, 27, 171, 182, 114, 249, 46, 36, 201, 25, 109, 29, 229, 112, 16, 228, 191, 18, 153, 182, 243, 160, 66, 215, 218, 99, 180, 19, 29, 232, 49, 50, 163, 202, 5, 253, 151, 155, 234, 161, 92, 46, 125, 246, 82, 205, 224, 117>>>>,
  <<"sha-224", <<100, 0, 1, 0>>, <<88, 243, 194, 238, 117, 81, 170, 97, 233, 3, 76, 140, 115, 150, 6, 153, 230, 245, 201, 101, 44, 218, 142, 179, 218, 123, 222, 23>>>>,
  <<"sha-256", <<100, 0, 1, 0>>, <<87, 125, 27, 220, 251, 53, 127, 246, 181, 207, 168, 216, 99, 171, 160, 132, 127, 234, 101, 250, 161, 255, 0, 246, 218, 241, 202, 237, 179, 10, 123, 63>>>>,
  <<"sha-384", <<100, 0, 1, 0>>, <<67, 107, 233, 7, 90, 206, 102, 88, 224, 246, 175, 138, 180, 58, 108, 203, 86, 175, 34, 77, 204, 15, 81, 164, 143, 33, 232, 40, 207, 87, 212, 243, 35, 128, 185, 48, 211, 149, 3, 65, 170, 17, 254, 44, 152, 12, 242, 212>>>>,
  <<"sha-512", <<100, 0, 1, 0>>, <<12, 145, 33, 238, 180, 137, 222, 140, 188, 210, 196, 43, 224, 91, 126, 201, 89, 128, 60, 191, 213, 221, 178, 178, 237, 12, 107, 104, 103, 80, 103, 151, 216, 213, 244, 92, 155, 24, 27, 198, 80, 80, 154, 173, 162, 48, 2, 182, 46, 218, 85, 8, 86, 43, 26, 100, 35, 19, 254, 149, 20, 88, 215, 165>>>>,
  <<"sha-512/224", <<100, 0, 1, 0>>, <<55, 157, 53, 107, 196, 114, 73, 34, 207, 200, 24, 71, 93, 142, 133, 248, 246, 212, 215, 88, 133, 28, 109, 137, 58, 50, 132, 109>>>>,
  <<"sha-512/256", <<100, 0, 1, 0>>, <<19, 9, 57, 242, 40, 26, 132, 254, 135, 55, 186, 154, 216, 58, 76, 59, 6, 177, 97, 242, 172, 87, 184, 187, 77, 26, 53, 225, 42, 140, 209, 139>>>>,
  <<"sha3-256", <<100, 0, 1, 0>>, <<204, 137, 31, 216, 152, 174, 135, 61, 132, 74, 47, 8, 149, 104, 94, 83, 116, 232, 33, 248, 107, 183, 243, 213, 4, 81, 145, 102, 46, 122, 175, 8>>>>,
  <<"sha3-512", <<100, 0, 1, 0>>, <<32, 152, 16, 43, 154, 123, 188, 191, 248, 138, 234, 188, 159, 70, 101, 59, 48, 235, 224, 227, 128, 142, 96, 69, 37, 158, 184, 202, 133, 224, 119, 252, 90, 164, 116, 39, 51, 117, 202, 196, 164, 77, 130, 58, 29, 143, 12, 103, 177, 52, 217, 99, 47, 112, 213, 47, 148, 32, 118, 214, 112, 179, 155, 119>>>>,
  <<"shake-128/256", <<100, 0, 1, 0>>, <<252, 80, 21, 107, 208, 71, 21, 8, 62, 68, 199, 120, 44, 96, 3, 138, 201, 191, 253, 243, 240, 202, 33, 170, 172, 192, 90, 81, 126, 75, 226, 75>>>>,
  <<"shake-256/512", <<100, 0, 1, 0>>, <<240, 54, 252, 0, 176, 85, 14, 92, 51, 27, 95, 14, 148, 139, 191, 9, 199, 186, 97, 179, 55, 130, 142, 157, 68, 89, 84, 156, 177, 166, 203, 61, 6, 144, 200, 175, 77, 46, 81, 228, 3, 177, 95, 84, 245, 5, 74, 79, 157, 234, 41, 108, 51, 221, 222, 166, 186, 144, 73, 85, 123, 164, 69, 112>>>>,
  <<"xxhash64", <<73, 8192, 0, 0>>, <<64, 116, 37, 15, 151, 205, 3, 171>>>>,
  <<"xxhash32", <<73, 8192, 0, 0>>, <<49, 133, 1, 233>>>>,
  <<"xxhash64", <<100, 0, 1, 0>>, <<80, 71, 241, 84, 248, 14, 209, 117>>>>,
  <<"xxhash32", <<100, 0, 1, 0>>, <<116, 28, 209, 175>>>>}
=============================================================================
