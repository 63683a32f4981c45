------------------------------- MODULE BigKat -------------------------------
(* Known answers (OpenSSL) for messages whose length in bits needs more     *)
(* than 32 bits and whose length in bytes does.  The message is the first n *)
(* bytes of the 16 MiB test pattern number 77 (run/lib.py: stream) repeated *)
(* without end.  <<name, param, n as a 64-bit word, digest>>                *)
BigKats == {
  <<"sha224", 0, <<73, 8192, 0, 0>>, <<198, 61, 243, 142, 103, 34, 8, 76, 54, 178, 21, 48, 88, 191, 233, 37, 114, 231, 92, 232, 173, 32, 115, 191, 118, 222, 203, 104>>>>,
  <<"sha224", 0, <<100, 0, 1, 0>>, <<214, 166, 24, 59, 75, 90, 237, 51, 181, 90, 160, 38, 254, 196, 77, 233, 65, 46, 254, 24, 239, 248, 179, 3, 215, 63, 205, 128>>>>,
  <<"sha256", 0, <<73, 8192, 0, 0>>, <<10, 127, 46, 146, 35, 208, 168, 29, 210, 75, 158, 159, 63, 97, 94, 13, 183, 19, 47, 240, 190, 8, 230, 22, 62, 178, 179, 42, 27, 101, 77, 98>>>>,
  <<"sha256", 0, <<100, 0, 1, 0>>, <<25, 220, 105, 115, 57, 212, 154, 193, 183, 242, 205, 185, 141, 151, 211, 226, 10, 65, 138, 167, 174, 74, 177, 13, 116, 68, 255, 59, 82, 144, 146, 96>>>>,
  <<"sha384", 0, <<73, 8192, 0, 0>>, <<189, 216, 172, 180, 203, 69, 215, 189, 159, 147, 223, 113, 33, 138, 126, 140, 2, 147, 131, 24, 21, 73, 95, 146, 78, 36, 201, 170, 191, 199, 18, 43, 15, 255, 219, 234, 17, 98, 54, 240, 223, 101, 21, 89, 99, 237, 232, 79>>>>,
  <<"sha384", 0, <<100, 0, 1, 0>>, <<121, 117, 224, 246, 81, 7, 143, 22, 123, 149, 1, 36, 35, 234, 242, 185, 198, 236, 81, 37, 159, 77, 95, 175, 135, 104, 162, 190, 52, 118, 170, 17, 22, 101, 85, 189, 128, 180, 140, 234, 91, 26, 155, 165, 157, 121, 75, 31>>>>,
  <<"sha512", 0, <<73, 8192, 0, 0>>, <<195, 117, 216, 18, 252, 145, 138, 201, 235, 61, 55, 17, 186, 124, 0, 109, 166, 26, 222, 209, 15, 45, 254, 132, 44, 48, 162, 75, 207, 106, 137, 170, 95, 25, 43, 12, 26, 30, 68, 6, 72, 46, 107, 143, 199, 203, 167, 4, 146, 174, 173, 209, 243, 182, 29, 59, 205, 169, 187, 193, 93, 157, 9, 74>>>>,
  <<"sha512", 0, <<100, 0, 1, 0>>, <<120, 23, 25, 118, 129, 134, 31, 8, 53, 222, 175, 39, 10, 231, 231, 81, 46, 64, 208, 45, 11, 211, 170, 171, 32, 230, 207, 3, 209, 215, 193, 76, 116, 49, 236, 83, 58, 128, 227, 113, 135, 246, 100, 191, 165, 28, 117, 194, 43, 242, 65, 27, 100, 204, 106, 193, 116, 195, 195, 171, 197, 204, 220, 101>>>>,
  <<"sha3_224", 0, <<73, 8192, 0, 0>>, <<82, 238, 102, 167, 78, 230, 165, 165, 227, 134, 172, 70, 222, 49, 61, 211, 92, 139, 74, 227, 88, 248, 217, 87, 9, 239, 190, 122>>>>,
  <<"sha3_224", 0, <<100, 0, 1, 0>>, <<89, 154, 86, 1, 84, 64, 254, 109, 1, 152, 50, 30, 5, 171, 154, 55, 9, 150, 144, 64, 226, 33, 230, 200, 86, 191, 26, 38>>>>,
  <<"sha3_256", 0, <<73, 8192, 0, 0>>, <<168, 114, 226, 227, 36, 43, 224, 65, 136, 127, 62, 225, 55, 156, 1, 112, 1, 49, 96, 102, 19, 249, 59, 7, 138, 104, 40, 226, 227, 75, 91, 212>>>>,
  <<"sha3_256", 0, <<100, 0, 1, 0>>, <<21, 32, 138, 235, 135, 23, 22, 138, 62, 85, 120, 75, 39, 175, 241, 252, 7, 189, 223, 117, 194, 217, 90, 181, 92, 41, 60, 114, 117, 138, 175, 95>>>>,
  <<"sha3_384", 0, <<73, 8192, 0, 0>>, <<152, 96, 58, 90, 151, 130, 44, 97, 226, 226, 9, 129, 15, 139, 23, 36, 213, 112, 39, 77, 188, 129, 198, 155, 199, 136, 75, 38, 72, 3, 161, 186, 192, 72, 74, 59, 44, 121, 200, 168, 143, 153, 188, 77, 135, 53, 224, 40>>>>,
  <<"sha3_384", 0, <<100, 0, 1, 0>>, <<29, 91, 24, 226, 16, 154, 128, 222, 35, 82, 115, 46, 62, 181, 39, 236, 212, 90, 58, 57, 104, 123, 219, 132, 159, 2, 239, 3, 186, 103, 104, 119, 238, 233, 3, 129, 84, 132, 20, 239, 150, 32, 222, 57, 230, 82, 42, 63>>>>,
  <<"sha3_512", 0, <<73, 8192, 0, 0>>, <<240, 221, 235, 239, 2, 101, 191, 45, 20, 127, 216, 107, 165, 211, 110, 41, 23, 89, 107, 119, 37, 105, 33, 106, 14, 209, 245, 12, 25, 1, 150, 64, 170, 35, 26, 146, 239, 52, 185, 133, 167, 19, 25, 245, 108, 85, 177, 58, 234, 159, 71, 202, 224, 59, 161, 93, 55, 21, 83, 182, 197, 142, 252, 238>>>>,
  <<"sha3_512", 0, <<100, 0, 1, 0>>, <<60, 202, 104, 210, 38, 115, 14, 97, 159, 5, 54, 142, 40, 45, 247, 169, 74, 149, 23, 139, 248, 245, 16, 169, 162, 60, 131, 186, 72, 20, 171, 195, 111, 34, 152, 8, 241, 22, 33, 158, 211, 76, 8, 165, 204, 163, 15, 238, 96, 139, 20, 214, 247, 130, 17, 235, 99, 107, 167, 175, 39, 209, 11, 28>>>>,
  <<"shake128", 0, <<73, 8192, 0, 0>>, <<216, 126, 208, 16, 197, 97, 245, 83, 11, 212, 234, 21, 34, 61, 7, 44, 140, 19, 145, 152, 59, 172, 111, 135, 158, 1, 15, 225, 159, 167, 6, 182>>>>,
  <<"shake128", 0, <<100, 0, 1, 0>>, <<189, 152, 209, 18, 231, 139, 220, 94, 135, 224, 35, 151, 74, 61, 133, 157, 198, 211, 164, 116, 89, 82, 75, 8, 225, 171, 122, 241, 198, 134, 80, 206>>>>,
  <<"shake256", 0, <<73, 8192, 0, 0>>, <<61, 178, 175, 244, 91, 225, 10, 130, 21, 134, 47, 73, 191, 115, 100, 63, 44, 185, 233, 191, 246, 95, 39, 102, 122, 157, 196, 78, 213, 98, 43, 103>>>>,
  <<"shake256", 0, <<100, 0, 1, 0>>, <<176, 203, 56, 184, 60, 93, 76, 163, 195, 242, 42, 86, 80, 248, 29, 201, 216, 78, 62, 93, 218, 40, 250, 227, 16, 187, 83, 60, 175, 44, 25, 85>>>>,
  <<"sha512t", 256, <<73, 8192, 0, 0>>, <<168, 112, 244, 166, 235, 184, 226, 200, 160, 160, 73, 150, 125, 100, 173, 208, 193, 196, 62, 180, 29, 160, 52, 216, 33, 64, 71, 162, 222, 237, 200, 200>>>>,
  <<"sha512t", 256, <<100, 0, 1, 0>>, <<44, 219, 22, 90, 104, 235, 215, 226, 221, 136, 181, 37, 215, 71, 201, 162, 128, 182, 2, 7, 248, 54, 181, 179, 109, 49, 70, 45, 94, 191, 138, 185>>>>}
=============================================================================
