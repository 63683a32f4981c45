------------------------------- MODULE PatKat --------------------------------
(* Known answers for the first n bytes of a repeated pattern (OpenSSL; for   *)
(* xxHash: its specification in C), made by run/gen_patkat.py.               *)
(* <<name of the checksum tool, n, digest>>                                  *)
PatKats == {
  <<"sha-224", 131078, <<249, 64, 53, 105, 11, 240, 181, 144, 48, 136, 0, 221, 27, 97, 62, 41, 140, 18, 216, 46, 175, 91, 215, 133, 217, 10, 23, 180>>>>,
  <<"sha-224", 135165, <<213, 165, 26, 189, 127, 232, 252, 37, 222, 178, 178, 229, 130, 188, 41, 36, 42, 62, 82, 39, 11, 74, 113, 28, 226, 14, 26, 99>>>>,
  <<"sha-224", 234572, <<170, 147, 232, 202, 123, 169, 174, 166, 133, 36, 80, 209, 246, 242, 172, 5, 227, 221, 141, 93, 174, 215, 27, 10, 110, 16, 59, 20>>>>,
  <<"sha-256", 131073, <<216, 210, 69, 85, 49, 127, 195, 219, 27, 196, 34, 115, 239, 148, 6, 93, 75, 75, 111, 87, 128, 62, 168, 193, 110, 119, 157, 80, 233, 243, 215, 68>>>>,
  <<"sha-256", 135166, <<104, 99, 172, 58, 87, 247, 150, 153, 14, 177, 117, 3, 138, 194, 248, 190, 204, 104, 147, 31, 144, 171, 106, 35, 223, 2, 79, 58, 150, 152, 122, 94>>>>,
  <<"sha-256", 155747, <<62, 214, 203, 115, 106, 96, 96, 227, 234, 199, 31, 121, 167, 30, 239, 92, 168, 44, 248, 142, 18, 202, 64, 26, 230, 193, 122, 192, 234, 241, 40, 228>>>>,
  <<"sha-384", 131078, <<187, 241, 24, 132, 197, 197, 244, 151, 179, 131, 158, 197, 248, 204, 38, 12, 195, 126, 131, 229, 77, 150, 207, 6, 140, 156, 237, 76, 112, 255, 82, 61, 147, 1, 49, 223, 92, 61, 125, 73, 11, 6, 245, 211, 118, 102, 250, 179>>>>,
  <<"sha-384", 135167, <<187, 155, 159, 247, 21, 245, 98, 130, 244, 49, 170, 231, 217, 84, 122, 145, 107, 135, 112, 3, 76, 140, 177, 65, 234, 148, 112, 252, 47, 65, 38, 88, 243, 228, 31, 100, 9, 39, 112, 161, 102, 132, 65, 65, 120, 248, 245, 175>>>>,
  <<"sha-384", 187353, <<163, 194, 241, 194, 56, 132, 5, 7, 15, 137, 23, 66, 31, 152, 222, 236, 136, 239, 18, 131, 113, 226, 33, 42, 12, 243, 112, 22, 252, 181, 91, 11, 83, 105, 188, 7, 226, 231, 230, 189, 22, 252, 171, 239, 125, 254, 92, 16>>>>,
  <<"sha-512", 131073, <<228, 111, 96, 146, 245, 190, 23, 209, 157, 12, 89, 245, 138, 248, 177, 110, 85, 94, 128, 22, 158, 193, 149, 82, 117, 193, 128, 13, 21, 39, 79, 85, 41, 2, 161, 55, 238, 111, 125, 97, 238, 57, 136, 223, 195, 243, 251, 122, 142, 241, 173, 206, 204, 182, 179, 214, 155, 146, 17, 226, 173, 115, 196, 220>>>>,
  <<"sha-512", 135166, <<230, 19, 124, 212, 243, 135, 108, 139, 10, 210, 255, 231, 199, 235, 237, 107, 115, 13, 203, 156, 130, 185, 202, 155, 234, 15, 65, 241, 184, 198, 113, 209, 57, 35, 80, 178, 85, 33, 115, 82, 10, 137, 188, 88, 136, 153, 114, 194, 69, 160, 53, 120, 27, 237, 94, 222, 235, 69, 53, 110, 196, 21, 62, 73>>>>,
  <<"sha-512", 244749, <<88, 202, 170, 241, 102, 116, 36, 240, 55, 204, 134, 19, 142, 121, 250, 122, 76, 93, 20, 33, 70, 107, 175, 220, 61, 131, 67, 138, 17, 248, 138, 244, 155, 130, 43, 142, 253, 135, 116, 100, 212, 98, 53, 71, 131, 218, 29, 0, 156, 45, 13, 49, 231, 14, 80, 217, 202, 103, 97, 190, 28, 99, 226, 143>>>>,
  <<"sha-512/224", 131079, <<189, 165, 87, 56, 162, 22, 225, 176, 193, 1, 203, 75, 60, 179, 114, 203, 86, 245, 167, 115, 60, 107, 54, 7, 209, 170, 75, 161>>>>,
  <<"sha-512/224", 135166, <<235, 203, 248, 117, 164, 29, 153, 9, 21, 115, 83, 79, 191, 3, 198, 67, 27, 54, 147, 231, 246, 251, 7, 70, 50, 34, 156, 160>>>>,
  <<"sha-512/224", 194160, <<71, 157, 103, 200, 243, 2, 158, 69, 26, 220, 209, 157, 68, 252, 24, 177, 111, 10, 130, 130, 141, 244, 191, 242, 60, 109, 213, 157>>>>,
  <<"sha-512/256", 131074, <<136, 25, 120, 104, 134, 80, 200, 184, 110, 92, 170, 55, 146, 12, 52, 27, 124, 163, 87, 191, 153, 148, 233, 16, 19, 146, 134, 130, 198, 150, 254, 245>>>>,
  <<"sha-512/256", 135161, <<214, 180, 175, 98, 119, 34, 122, 59, 180, 195, 240, 181, 250, 102, 205, 202, 92, 72, 110, 81, 27, 243, 122, 32, 112, 72, 104, 247, 217, 28, 121, 171>>>>,
  <<"sha-512/256", 146567, <<141, 78, 155, 167, 61, 114, 155, 10, 65, 21, 204, 145, 114, 149, 180, 230, 164, 206, 57, 40, 41, 65, 43, 133, 205, 70, 125, 218, 183, 187, 135, 51>>>>,
  <<"sha3-224", 131074, <<96, 37, 26, 76, 38, 43, 168, 154, 118, 119, 129, 199, 132, 208, 18, 244, 135, 140, 13, 103, 168, 93, 183, 174, 91, 28, 113, 15>>>>,
  <<"sha3-224", 135164, <<252, 133, 57, 144, 205, 233, 187, 217, 140, 0, 116, 207, 188, 245, 22, 25, 159, 92, 97, 109, 23, 81, 165, 219, 164, 189, 92, 190>>>>,
  <<"sha3-224", 147288, <<124, 43, 56, 157, 91, 235, 153, 19, 141, 12, 29, 128, 164, 79, 232, 107, 202, 138, 45, 255, 234, 75, 64, 159, 189, 164, 12, 36>>>>,
  <<"sha3-256", 131079, <<253, 229, 103, 248, 183, 135, 109, 141, 82, 61, 198, 153, 154, 179, 39, 230, 200, 31, 144, 177, 216, 135, 219, 192, 203, 145, 212, 80, 24, 187, 213, 69>>>>,
  <<"sha3-256", 135167, <<29, 99, 172, 30, 176, 147, 109, 12, 239, 199, 249, 23, 115, 2, 211, 72, 144, 224, 103, 119, 52, 202, 95, 62, 146, 201, 231, 210, 64, 71, 166, 62>>>>,
  <<"sha3-256", 189027, <<53, 88, 47, 183, 217, 156, 254, 181, 150, 127, 70, 210, 212, 45, 187, 98, 249, 8, 136, 57, 81, 163, 36, 220, 8, 53, 7, 143, 146, 212, 21, 225>>>>,
  <<"sha3-384", 131073, <<74, 209, 118, 129, 105, 195, 154, 254, 182, 82, 84, 228, 176, 8, 170, 144, 74, 88, 114, 25, 199, 118, 132, 40, 204, 164, 152, 247, 104, 254, 131, 34, 160, 58, 84, 5, 31, 24, 252, 180, 77, 243, 142, 233, 191, 181, 140, 110>>>>,
  <<"sha3-384", 135165, <<112, 114, 69, 110, 182, 146, 104, 172, 79, 160, 41, 110, 101, 118, 157, 228, 75, 214, 135, 79, 59, 188, 27, 221, 245, 171, 125, 79, 208, 16, 64, 229, 148, 200, 47, 19, 150, 88, 205, 114, 118, 96, 68, 118, 35, 113, 240, 202>>>>,
  <<"sha3-384", 206991, <<117, 173, 126, 23, 20, 87, 25, 64, 41, 189, 105, 80, 44, 24, 120, 22, 197, 145, 120, 195, 192, 21, 4, 224, 14, 237, 38, 70, 214, 216, 113, 211, 66, 187, 17, 51, 47, 255, 99, 4, 105, 84, 245, 226, 40, 99, 3, 242>>>>,
  <<"sha3-512", 131079, <<28, 120, 79, 122, 104, 180, 70, 6, 102, 116, 172, 212, 243, 255, 239, 122, 175, 252, 236, 178, 59, 189, 88, 148, 67, 5, 103, 100, 17, 93, 144, 234, 38, 104, 222, 113, 167, 14, 59, 200, 196, 187, 15, 229, 90, 79, 16, 120, 238, 221, 243, 103, 25, 75, 161, 137, 226, 18, 127, 84, 143, 118, 211, 130>>>>,
  <<"sha3-512", 135165, <<200, 9, 101, 131, 177, 207, 194, 238, 42, 14, 53, 184, 89, 133, 208, 247, 251, 137, 80, 219, 43, 40, 103, 178, 180, 148, 81, 111, 110, 120, 222, 104, 221, 7, 205, 34, 25, 9, 194, 124, 225, 156, 242, 209, 196, 44, 131, 60, 3, 46, 236, 229, 162, 153, 122, 211, 245, 36, 213, 179, 86, 6, 82, 142>>>>,
  <<"sha3-512", 161950, <<107, 110, 246, 78, 110, 142, 129, 81, 100, 153, 209, 210, 30, 247, 185, 48, 182, 61, 241, 112, 215, 232, 168, 57, 249, 211, 151, 44, 170, 135, 215, 145, 139, 182, 33, 198, 63, 64, 173, 220, 189, 170, 190, 220, 1, 46, 173, 40, 165, 189, 44, 204, 84, 183, 161, 215, 95, 65, 170, 92, 238, 27, 159, 41>>>>,
  <<"shake-128/32", 131077, <<191, 55, 27, 75>>>>,
  <<"shake-128/32", 135165, <<92, 98, 87, 195>>>>,
  <<"shake-128/32", 158087, <<11, 212, 173, 248>>>>,
  <<"shake-128/64", 131076, <<24, 19, 33, 127, 212, 71, 170, 113>>>>,
  <<"shake-128/64", 135162, <<88, 136, 213, 225, 165, 193, 54, 163>>>>,
  <<"shake-128/64", 156612, <<159, 149, 230, 173, 146, 105, 114, 52>>>>,
  <<"shake-128/128", 131074, <<95, 136, 143, 219, 115, 112, 162, 245, 19, 223, 15, 156, 237, 44, 75, 40>>>>,
  <<"shake-128/128", 135167, <<226, 104, 108, 247, 104, 46, 27, 166, 75, 60, 18, 205, 106, 104, 52, 210>>>>,
  <<"shake-128/128", 185062, <<37, 203, 138, 179, 131, 242, 139, 103, 35, 177, 95, 109, 21, 170, 51, 214>>>>,
  <<"shake-128/256", 131080, <<35, 87, 92, 154, 156, 232, 130, 34, 250, 250, 111, 11, 63, 223, 158, 28, 31, 127, 148, 184, 144, 175, 80, 16, 92, 101, 10, 246, 60, 240, 31, 172>>>>,
  <<"shake-128/256", 135161, <<112, 173, 3, 168, 116, 71, 157, 30, 236, 78, 165, 229, 219, 117, 176, 147, 220, 208, 114, 50, 157, 56, 100, 6, 139, 67, 1, 173, 110, 184, 104, 89>>>>,
  <<"shake-128/256", 213423, <<145, 103, 123, 108, 168, 248, 53, 5, 200, 92, 219, 35, 226, 233, 179, 57, 235, 30, 14, 19, 189, 221, 139, 65, 243, 185, 17, 207, 3, 204, 37, 153>>>>,
  <<"shake-128/512", 131080, <<35, 87, 92, 154, 156, 232, 130, 34, 250, 250, 111, 11, 63, 223, 158, 28, 31, 127, 148, 184, 144, 175, 80, 16, 92, 101, 10, 246, 60, 240, 31, 172, 13, 168, 169, 50, 167, 118, 59, 103, 225, 29, 187, 148, 135, 114, 214, 182, 184, 242, 66, 206, 70, 249, 8, 116, 133, 153, 213, 246, 122, 195, 163, 200>>>>,
  <<"shake-128/512", 135160, <<207, 29, 124, 158, 49, 85, 91, 208, 28, 43, 152, 169, 159, 64, 13, 98, 100, 249, 41, 43, 40, 239, 198, 115, 74, 190, 192, 230, 74, 86, 8, 159, 113, 108, 154, 243, 64, 13, 54, 197, 56, 94, 212, 51, 71, 196, 236, 254, 75, 95, 141, 148, 8, 134, 201, 30, 161, 71, 14, 229, 56, 190, 145, 166>>>>,
  <<"shake-128/512", 225858, <<131, 23, 126, 189, 32, 201, 184, 1, 130, 21, 148, 245, 129, 38, 69, 253, 118, 69, 21, 96, 59, 68, 219, 222, 36, 121, 185, 148, 27, 84, 208, 165, 13, 122, 179, 68, 163, 93, 97, 84, 38, 189, 242, 135, 68, 180, 227, 118, 59, 4, 130, 195, 117, 189, 137, 254, 6, 163, 131, 178, 134, 105, 253, 60>>>>,
  <<"shake-128/1024", 131077, <<191, 55, 27, 75, 45, 188, 92, 138, 158, 251, 27, 19, 28, 54, 41, 212, 242, 70, 30, 37, 52, 124, 118, 4, 130, 246, 236, 28, 13, 240, 133, 69, 185, 63, 158, 14, 172, 65, 249, 3, 193, 204, 196, 139, 159, 117, 30, 68, 118, 219, 2, 253, 176, 92, 87, 233, 49, 70, 243, 57, 58, 79, 136, 106, 252, 238, 146, 122, 197, 168, 168, 177, 151, 30, 78, 191, 82, 220, 44, 143, 206, 245, 6, 212, 111, 162, 121, 158, 129, 85, 189, 176, 225, 59, 77, 170, 64, 6, 95, 222, 27, 52, 176, 220, 163, 243, 71, 153, 116, 136, 27, 245, 192, 44, 99, 201, 241, 216, 220, 23, 152, 66, 25, 178, 96, 81, 34, 77>>>>,
  <<"shake-128/1024", 135164, <<99, 26, 250, 180, 254, 151, 48, 38, 144, 15, 206, 240, 125, 195, 116, 72, 107, 253, 222, 196, 126, 27, 135, 76, 68, 58, 43, 161, 214, 57, 17, 248, 64, 79, 31, 210, 131, 244, 181, 36, 89, 23, 255, 173, 66, 170, 152, 128, 210, 121, 48, 115, 189, 41, 199, 210, 142, 77, 35, 175, 45, 71, 73, 45, 32, 102, 92, 155, 18, 77, 119, 102, 152, 45, 20, 4, 136, 130, 163, 45, 144, 38, 172, 46, 186, 163, 191, 63, 86, 163, 167, 83, 193, 41, 229, 102, 53, 184, 92, 104, 214, 219, 92, 184, 28, 217, 112, 42, 126, 76, 152, 108, 200, 121, 133, 125, 53, 223, 253, 183, 201, 34, 236, 104, 134, 246, 254, 215>>>>,
  <<"shake-128/1024", 178196, <<38, 36, 61, 98, 216, 206, 197, 230, 128, 252, 191, 170, 55, 6, 65, 209, 52, 244, 195, 172, 173, 62, 11, 132, 217, 83, 160, 73, 157, 74, 107, 227, 195, 18, 24, 192, 83, 137, 94, 95, 0, 170, 96, 145, 28, 10, 141, 158, 120, 88, 26, 197, 165, 125, 99, 108, 50, 70, 250, 170, 94, 127, 90, 192, 245, 235, 10, 33, 231, 196, 233, 122, 12, 148, 238, 235, 159, 130, 233, 147, 142, 252, 171, 7, 218, 234, 194, 128, 162, 4, 222, 72, 130, 209, 216, 169, 203, 237, 198, 251, 65, 211, 192, 187, 116, 101, 4, 13, 164, 83, 101, 124, 177, 187, 150, 207, 71, 96, 76, 152, 91, 76, 191, 120, 46, 19, 106, 162>>>>,
  <<"shake-128/2048", 131076, <<24, 19, 33, 127, 212, 71, 170, 113, 59, 241, 195, 218, 10, 219, 93, 188, 99, 155, 81, 59, 151, 11, 175, 33, 182, 92, 30, 95, 72, 95, 213, 77, 101, 92, 163, 92, 138, 219, 3, 93, 7, 170, 105, 206, 158, 98, 230, 129, 36, 36, 108, 82, 62, 66, 157, 21, 67, 166, 163, 187, 168, 35, 166, 177, 38, 212, 33, 69, 204, 41, 6, 242, 160, 225, 148, 215, 206, 34, 149, 61, 143, 194, 50, 176, 20, 130, 34, 195, 51, 184, 69, 197, 131, 141, 176, 159, 114, 37, 212, 193, 113, 55, 249, 13, 139, 201, 125, 188, 184, 104, 129, 59, 128, 237, 25, 132, 106, 176, 221, 150, 50, 193, 113, 158, 251, 242, 183, 30, 6, 236, 251, 139, 228, 251, 112, 88, 51, 2, 231, 210, 236, 44, 97, 159, 52, 124, 85, 139, 159, 149, 34, 25, 94, 59, 213, 11, 43, 9, 236, 142, 135, 164, 226, 82, 51, 88, 85, 215, 211, 150, 16, 243, 193, 121, 233, 20, 47, 183, 243, 43, 110, 53, 175, 9, 194, 105, 139, 244, 85, 155, 57, 122, 144, 44, 253, 169, 39, 178, 230, 7, 233, 125, 91, 107, 40, 163, 86, 64, 166, 44, 134, 199, 21, 172, 18, 137, 151, 46, 162, 25, 190, 200, 80, 50, 244, 178, 1, 170, 150, 18, 243, 4, 85, 226, 177, 83, 50, 255, 228, 187, 238, 146, 131, 120, 215, 65, 251, 171, 67, 254, 227, 254, 182, 8, 138, 24>>>>,
  <<"shake-128/2048", 135166, <<228, 156, 155, 254, 53, 200, 170, 3, 133, 74, 163, 161, 133, 153, 207, 154, 157, 110, 66, 179, 101, 93, 222, 89, 47, 38, 93, 173, 212, 39, 23, 1, 0, 131, 163, 85, 159, 83, 139, 40, 110, 28, 254, 56, 148, 47, 147, 182, 247, 87, 98, 35, 216, 250, 209, 159, 94, 222, 81, 110, 30, 26, 47, 147, 206, 52, 119, 199, 209, 176, 171, 96, 138, 241, 211, 112, 228, 152, 240, 93, 40, 31, 89, 152, 13, 172, 127, 209, 229, 56, 230, 136, 161, 84, 157, 103, 255, 234, 160, 245, 72, 113, 5, 185, 65, 129, 76, 98, 60, 244, 23, 142, 134, 77, 249, 61, 232, 9, 9, 175, 171, 238, 60, 162, 224, 93, 49, 12, 132, 64, 38, 102, 178, 124, 24, 154, 176, 255, 66, 44, 21, 86, 95, 108, 140, 80, 49, 19, 115, 64, 124, 112, 160, 232, 72, 79, 113, 226, 255, 196, 47, 40, 201, 7, 156, 234, 141, 183, 55, 88, 198, 144, 176, 209, 73, 17, 92, 41, 168, 194, 34, 166, 70, 201, 142, 246, 113, 6, 110, 84, 160, 26, 113, 53, 77, 220, 77, 55, 26, 28, 109, 64, 18, 193, 176, 225, 63, 181, 49, 91, 61, 147, 130, 182, 160, 141, 206, 3, 121, 222, 73, 27, 181, 44, 16, 0, 74, 71, 8, 129, 19, 155, 219, 218, 19, 29, 43, 145, 61, 113, 103, 179, 247, 229, 240, 208, 216, 98, 58, 181, 62, 62, 171, 148, 179, 182>>>>,
  <<"shake-128/2048", 209780, <<245, 119, 16, 18, 131, 220, 89, 250, 221, 165, 158, 41, 76, 139, 79, 145, 175, 163, 20, 17, 95, 163, 23, 48, 121, 227, 245, 133, 139, 97, 174, 23, 64, 245, 178, 103, 35, 202, 96, 70, 42, 246, 180, 86, 119, 79, 21, 58, 206, 211, 84, 201, 143, 26, 146, 155, 249, 80, 207, 26, 22, 107, 164, 122, 215, 210, 207, 20, 45, 82, 87, 103, 234, 233, 165, 148, 192, 93, 158, 21, 41, 31, 134, 186, 133, 28, 69, 255, 247, 205, 16, 230, 245, 90, 202, 113, 61, 212, 176, 212, 33, 61, 178, 151, 179, 232, 187, 69, 222, 149, 137, 99, 246, 13, 171, 134, 0, 2, 201, 62, 136, 168, 20, 209, 206, 1, 33, 213, 104, 97, 79, 48, 243, 231, 135, 189, 149, 213, 125, 155, 244, 140, 46, 42, 33, 30, 184, 240, 108, 32, 178, 118, 123, 146, 51, 159, 141, 148, 198, 84, 219, 20, 233, 79, 79, 167, 236, 206, 154, 61, 154, 121, 141, 230, 31, 148, 4, 240, 129, 159, 179, 177, 247, 30, 214, 132, 203, 116, 93, 62, 125, 213, 107, 73, 76, 93, 229, 36, 40, 58, 61, 1, 83, 69, 101, 29, 184, 212, 241, 32, 63, 220, 137, 101, 139, 158, 38, 122, 3, 135, 0, 210, 141, 153, 255, 48, 87, 4, 223, 50, 186, 74, 233, 232, 159, 14, 40, 198, 210, 117, 166, 202, 134, 91, 199, 127, 71, 89, 243, 148, 195, 157, 20, 78, 133, 6>>>>,
  <<"shake-256/32", 131080, <<3, 203, 214, 52>>>>,
  <<"shake-256/32", 135162, <<17, 205, 254, 8>>>>,
  <<"shake-256/32", 248731, <<64, 47, 242, 190>>>>,
  <<"shake-256/64", 131077, <<72, 156, 112, 112, 203, 68, 203, 41>>>>,
  <<"shake-256/64", 135166, <<104, 214, 166, 134, 61, 146, 159, 170>>>>,
  <<"shake-256/64", 162022, <<238, 205, 244, 53, 150, 196, 91, 243>>>>,
  <<"shake-256/128", 131079, <<87, 7, 177, 205, 18, 101, 51, 144, 89, 88, 224, 17, 52, 156, 168, 160>>>>,
  <<"shake-256/128", 135165, <<23, 78, 169, 238, 33, 155, 9, 217, 235, 137, 193, 34, 134, 35, 61, 12>>>>,
  <<"shake-256/128", 220739, <<182, 74, 158, 112, 117, 33, 235, 30, 43, 148, 161, 221, 245, 79, 107, 4>>>>,
  <<"shake-256/256", 131075, <<208, 31, 140, 181, 134, 231, 240, 59, 93, 138, 16, 117, 116, 61, 181, 221, 13, 234, 189, 145, 200, 38, 197, 0, 131, 164, 195, 154, 120, 129, 247, 237>>>>,
  <<"shake-256/256", 135160, <<124, 48, 159, 130, 121, 189, 100, 170, 54, 152, 195, 51, 56, 102, 29, 185, 100, 248, 236, 226, 110, 215, 55, 58, 230, 200, 157, 184, 244, 106, 83, 118>>>>,
  <<"shake-256/256", 241617, <<47, 250, 23, 6, 95, 20, 147, 33, 56, 29, 7, 134, 202, 128, 0, 10, 1, 112, 73, 149, 103, 200, 252, 59, 99, 55, 214, 203, 252, 51, 50, 103>>>>,
  <<"shake-256/512", 131073, <<57, 192, 117, 95, 84, 149, 208, 131, 179, 139, 247, 255, 79, 22, 69, 78, 81, 148, 230, 189, 94, 182, 45, 92, 241, 16, 41, 220, 42, 95, 192, 208, 242, 185, 241, 148, 75, 235, 0, 98, 252, 100, 212, 28, 123, 81, 192, 205, 245, 31, 22, 176, 64, 12, 56, 255, 220, 98, 140, 30, 104, 29, 113, 69>>>>,
  <<"shake-256/512", 135166, <<104, 214, 166, 134, 61, 146, 159, 170, 107, 78, 241, 235, 226, 234, 46, 84, 103, 220, 161, 86, 22, 40, 101, 25, 193, 51, 21, 110, 59, 8, 169, 224, 112, 229, 141, 125, 77, 227, 174, 254, 138, 224, 241, 181, 129, 243, 198, 86, 232, 78, 205, 11, 166, 164, 70, 142, 215, 33, 131, 34, 103, 232, 26, 96>>>>,
  <<"shake-256/512", 213319, <<23, 92, 32, 11, 60, 150, 105, 133, 234, 173, 142, 106, 62, 215, 110, 99, 59, 177, 159, 135, 117, 207, 29, 7, 89, 124, 186, 224, 43, 180, 101, 46, 99, 178, 15, 18, 189, 243, 111, 255, 206, 114, 226, 166, 229, 152, 147, 127, 212, 214, 72, 3, 175, 116, 180, 198, 157, 40, 61, 44, 28, 14, 29, 198>>>>,
  <<"shake-256/1024", 131078, <<137, 57, 189, 221, 218, 97, 214, 220, 211, 22, 148, 80, 37, 249, 244, 159, 247, 179, 112, 177, 26, 174, 69, 74, 82, 168, 92, 133, 119, 25, 188, 240, 199, 80, 255, 15, 202, 119, 56, 251, 230, 104, 43, 6, 3, 216, 68, 177, 212, 253, 114, 232, 146, 37, 134, 90, 135, 235, 243, 102, 39, 19, 126, 52, 51, 174, 52, 251, 226, 225, 216, 178, 118, 120, 70, 246, 78, 243, 144, 212, 25, 190, 191, 192, 151, 222, 163, 3, 86, 155, 73, 148, 167, 239, 238, 186, 242, 88, 16, 76, 70, 198, 206, 119, 200, 137, 167, 242, 67, 7, 245, 5, 133, 222, 76, 247, 213, 181, 23, 132, 64, 213, 36, 234, 49, 170, 188, 84>>>>,
  <<"shake-256/1024", 135162, <<17, 205, 254, 8, 212, 130, 116, 155, 78, 63, 250, 188, 56, 166, 228, 26, 114, 144, 72, 65, 104, 249, 253, 69, 136, 172, 7, 140, 54, 145, 128, 169, 228, 147, 112, 235, 200, 113, 248, 81, 80, 52, 214, 115, 149, 16, 156, 10, 189, 14, 243, 235, 155, 33, 169, 32, 181, 183, 182, 179, 113, 25, 241, 125, 147, 5, 160, 207, 50, 122, 168, 154, 203, 133, 152, 250, 190, 3, 23, 33, 153, 66, 43, 244, 200, 155, 58, 161, 142, 47, 230, 227, 33, 152, 213, 44, 169, 2, 76, 188, 15, 218, 236, 46, 249, 169, 51, 42, 186, 37, 141, 168, 220, 34, 106, 30, 27, 131, 242, 101, 251, 15, 152, 66, 40, 75, 235, 52>>>>,
  <<"shake-256/1024", 261272, <<68, 3, 42, 98, 207, 100, 106, 173, 41, 157, 222, 35, 176, 15, 220, 229, 94, 181, 36, 127, 6, 147, 160, 44, 62, 100, 254, 2, 180, 26, 150, 106, 147, 231, 71, 220, 125, 19, 251, 235, 244, 18, 10, 240, 199, 222, 255, 75, 159, 8, 209, 11, 221, 253, 197, 102, 119, 163, 248, 231, 95, 10, 161, 78, 93, 217, 108, 80, 64, 97, 189, 255, 172, 31, 231, 67, 232, 213, 245, 155, 59, 112, 210, 62, 152, 203, 65, 39, 72, 10, 77, 141, 179, 59, 63, 178, 112, 67, 254, 126, 67, 133, 73, 1, 53, 228, 196, 79, 107, 121, 254, 198, 246, 20, 8, 34, 59, 67, 137, 218, 110, 99, 99, 214, 174, 144, 14, 96>>>>,
  <<"shake-256/2048", 131080, <<3, 203, 214, 52, 208, 23, 144, 127, 80, 190, 88, 115, 255, 144, 70, 110, 75, 35, 87, 188, 246, 227, 94, 183, 186, 199, 254, 109, 136, 168, 156, 38, 248, 236, 181, 180, 49, 246, 91, 100, 74, 214, 222, 93, 120, 231, 193, 169, 63, 215, 0, 214, 34, 164, 213, 128, 253, 177, 55, 200, 90, 61, 241, 163, 154, 105, 213, 169, 165, 218, 225, 91, 85, 45, 246, 58, 93, 5, 38, 109, 161, 18, 245, 130, 74, 63, 183, 20, 110, 4, 62, 91, 247, 91, 118, 167, 107, 139, 236, 245, 53, 253, 229, 144, 233, 158, 100, 121, 46, 13, 142, 38, 132, 83, 239, 6, 60, 61, 165, 207, 23, 165, 137, 79, 15, 50, 211, 152, 140, 217, 52, 216, 189, 23, 237, 124, 243, 136, 129, 203, 77, 38, 1, 32, 30, 201, 179, 85, 246, 189, 217, 142, 116, 245, 173, 90, 98, 93, 99, 32, 120, 136, 177, 165, 246, 6, 117, 244, 42, 46, 170, 127, 3, 226, 75, 227, 243, 82, 92, 29, 244, 101, 31, 86, 19, 214, 56, 172, 233, 244, 37, 23, 246, 14, 121, 16, 97, 181, 225, 184, 99, 237, 148, 167, 114, 107, 109, 95, 199, 160, 203, 18, 100, 186, 169, 128, 78, 205, 243, 123, 65, 179, 13, 191, 169, 105, 240, 108, 83, 148, 67, 38, 127, 155, 68, 210, 175, 78, 92, 35, 136, 248, 108, 208, 222, 28, 92, 112, 80, 42, 254, 246, 15, 52, 75, 199>>>>,
  <<"shake-256/2048", 135166, <<104, 214, 166, 134, 61, 146, 159, 170, 107, 78, 241, 235, 226, 234, 46, 84, 103, 220, 161, 86, 22, 40, 101, 25, 193, 51, 21, 110, 59, 8, 169, 224, 112, 229, 141, 125, 77, 227, 174, 254, 138, 224, 241, 181, 129, 243, 198, 86, 232, 78, 205, 11, 166, 164, 70, 142, 215, 33, 131, 34, 103, 232, 26, 96, 244, 53, 228, 199, 172, 21, 171, 37, 168, 206, 222, 61, 69, 196, 116, 233, 24, 207, 15, 174, 96, 64, 248, 25, 84, 48, 94, 181, 137, 168, 169, 46, 46, 3, 161, 242, 146, 98, 136, 164, 51, 36, 184, 213, 149, 24, 105, 147, 112, 213, 63, 203, 57, 127, 103, 73, 225, 148, 32, 176, 168, 68, 189, 24, 244, 225, 208, 136, 180, 40, 33, 57, 190, 71, 66, 201, 191, 198, 62, 161, 16, 65, 117, 153, 75, 117, 242, 174, 103, 128, 51, 213, 143, 6, 96, 107, 183, 237, 205, 60, 15, 246, 168, 135, 5, 216, 170, 45, 216, 87, 179, 73, 144, 173, 83, 111, 88, 22, 0, 99, 251, 169, 73, 117, 187, 12, 162, 43, 134, 159, 163, 237, 230, 123, 113, 17, 231, 37, 162, 100, 250, 129, 189, 42, 1, 223, 157, 204, 243, 66, 136, 170, 78, 191, 224, 169, 156, 241, 78, 253, 205, 51, 108, 163, 4, 231, 117, 253, 41, 197, 228, 196, 46, 221, 246, 95, 157, 156, 159, 65, 208, 110, 165, 179, 237, 81, 44, 127, 249, 164, 250, 54>>>>,
  <<"shake-256/2048", 155607, <<153, 165, 74, 215, 196, 195, 160, 175, 111, 128, 176, 216, 165, 7, 58, 188, 87, 167, 75, 27, 20, 150, 167, 144, 158, 233, 137, 158, 181, 186, 243, 10, 166, 155, 61, 69, 152, 123, 66, 111, 136, 118, 2, 247, 113, 16, 79, 108, 159, 248, 235, 94, 44, 36, 100, 197, 254, 219, 205, 78, 155, 156, 227, 149, 224, 98, 13, 131, 233, 248, 20, 72, 253, 229, 75, 226, 150, 71, 6, 33, 118, 21, 248, 230, 243, 231, 136, 168, 70, 24, 96, 151, 78, 5, 226, 164, 114, 160, 139, 46, 77, 172, 88, 42, 97, 133, 139, 56, 156, 28, 219, 27, 96, 200, 18, 187, 123, 137, 97, 167, 214, 40, 42, 136, 126, 186, 97, 207, 79, 15, 16, 97, 168, 85, 86, 159, 137, 206, 147, 137, 47, 237, 195, 130, 194, 105, 27, 29, 112, 156, 26, 238, 18, 8, 118, 159, 96, 149, 111, 65, 86, 162, 115, 180, 111, 61, 211, 232, 172, 197, 94, 182, 168, 235, 11, 14, 74, 36, 120, 37, 109, 155, 97, 99, 229, 27, 7, 185, 193, 113, 225, 121, 106, 220, 155, 108, 31, 41, 43, 197, 237, 169, 113, 105, 137, 112, 33, 74, 9, 204, 67, 93, 87, 29, 98, 199, 133, 155, 141, 109, 211, 138, 247, 1, 40, 152, 0, 248, 225, 138, 99, 67, 47, 201, 153, 82, 83, 65, 78, 241, 101, 124, 120, 38, 57, 121, 112, 49, 78, 201, 8, 36, 62, 193, 199, 76>>>>,
  <<"xxhash64", 131077, <<89, 142, 252, 162, 66, 116, 24, 170>>>>,
  <<"xxhash64", 135160, <<46, 171, 140, 251, 212, 12, 228, 26>>>>,
  <<"xxhash64", 148111, <<232, 114, 53, 209, 113, 63, 218, 148>>>>,
  <<"xxhash32", 131073, <<214, 130, 177, 101>>>>,
  <<"xxhash32", 135163, <<141, 144, 205, 230>>>>,
  <<"xxhash32", 247894, <<193, 114, 41, 118>>>>,
  <<"sha-224", 262149, <<197, 120, 156, 12, 131, 86, 86, 85, 119, 17, 105, 242, 115, 100, 97, 163, 97, 190, 128, 38, 102, 102, 233, 239, 103, 24, 233, 157>>>>,
  <<"sha-224", 266233, <<91, 11, 95, 21, 120, 58, 177, 38, 78, 243, 161, 0, 90, 85, 149, 200, 130, 20, 171, 173, 205, 88, 129, 57, 165, 10, 23, 226>>>>,
  <<"sha-224", 444074, <<136, 129, 192, 168, 199, 68, 67, 188, 90, 232, 133, 240, 226, 161, 23, 208, 171, 117, 53, 38, 224, 58, 141, 240, 232, 99, 73, 120>>>>,
  <<"sha-256", 262145, <<132, 19, 161, 163, 193, 128, 58, 174, 236, 53, 204, 236, 193, 235, 122, 216, 116, 118, 89, 152, 104, 149, 204, 41, 182, 99, 48, 234, 239, 103, 196, 96>>>>,
  <<"sha-256", 266232, <<3, 193, 244, 43, 176, 149, 26, 160, 135, 183, 69, 25, 130, 31, 133, 90, 137, 143, 30, 234, 191, 198, 215, 153, 160, 204, 77, 15, 90, 96, 32, 211>>>>,
  <<"sha-256", 448509, <<237, 4, 51, 197, 121, 246, 165, 148, 25, 188, 25, 61, 189, 215, 177, 246, 80, 184, 55, 193, 56, 234, 68, 33, 58, 162, 94, 110, 2, 180, 130, 68>>>>,
  <<"sha-384", 262147, <<233, 111, 168, 193, 40, 118, 97, 14, 183, 70, 252, 86, 195, 169, 85, 114, 122, 65, 208, 229, 81, 84, 59, 231, 232, 120, 108, 9, 128, 8, 245, 62, 243, 197, 159, 64, 117, 127, 122, 160, 69, 138, 9, 242, 212, 103, 99, 189>>>>,
  <<"sha-384", 266238, <<147, 193, 145, 162, 132, 101, 249, 242, 120, 29, 7, 202, 219, 51, 81, 211, 217, 165, 38, 254, 116, 26, 13, 185, 61, 6, 152, 169, 103, 236, 105, 112, 115, 4, 157, 104, 149, 249, 225, 19, 72, 162, 188, 84, 8, 49, 230, 188>>>>,
  <<"sha-384", 520981, <<253, 67, 197, 229, 57, 160, 248, 175, 85, 178, 243, 53, 194, 18, 84, 40, 235, 42, 171, 240, 194, 126, 132, 214, 240, 112, 37, 84, 1, 235, 229, 225, 78, 173, 107, 44, 217, 245, 101, 224, 135, 8, 242, 12, 213, 234, 115, 247>>>>,
  <<"sha-512", 262145, <<164, 93, 0, 139, 191, 28, 184, 213, 39, 161, 7, 115, 137, 5, 194, 184, 139, 55, 74, 31, 183, 36, 51, 194, 76, 203, 133, 30, 12, 194, 133, 44, 4, 116, 241, 217, 33, 134, 99, 172, 38, 127, 110, 54, 88, 157, 214, 194, 107, 139, 62, 8, 38, 113, 249, 112, 13, 160, 52, 122, 97, 88, 251, 186>>>>,
  <<"sha-512", 266236, <<135, 143, 101, 233, 155, 223, 206, 17, 227, 254, 109, 67, 133, 36, 215, 133, 184, 202, 174, 189, 108, 98, 50, 248, 180, 218, 238, 239, 115, 156, 88, 50, 127, 37, 126, 127, 201, 254, 242, 19, 200, 16, 215, 58, 212, 207, 70, 69, 57, 165, 174, 36, 175, 30, 135, 223, 28, 68, 61, 116, 114, 164, 24, 87>>>>,
  <<"sha-512", 412841, <<241, 162, 120, 94, 88, 200, 87, 138, 118, 126, 109, 120, 171, 168, 145, 140, 210, 39, 252, 72, 151, 118, 216, 109, 166, 191, 71, 19, 126, 28, 157, 141, 37, 162, 202, 68, 45, 42, 13, 169, 185, 228, 103, 86, 219, 31, 154, 27, 79, 229, 51, 221, 149, 145, 182, 240, 113, 23, 89, 39, 134, 208, 124, 125>>>>,
  <<"sha-512/224", 262147, <<168, 70, 43, 19, 55, 227, 238, 17, 141, 132, 111, 111, 246, 144, 137, 122, 157, 154, 216, 19, 7, 22, 187, 54, 230, 86, 82, 72>>>>,
  <<"sha-512/224", 266236, <<233, 177, 140, 34, 222, 230, 12, 67, 218, 38, 239, 132, 165, 246, 148, 108, 241, 171, 172, 186, 142, 147, 98, 95, 207, 236, 229, 78>>>>,
  <<"sha-512/224", 470756, <<167, 202, 171, 237, 30, 184, 102, 91, 118, 33, 34, 52, 97, 200, 151, 135, 215, 156, 233, 217, 80, 62, 62, 50, 3, 189, 135, 74>>>>,
  <<"sha-512/256", 262151, <<23, 3, 246, 135, 77, 176, 204, 109, 191, 227, 98, 154, 109, 191, 234, 208, 34, 0, 111, 50, 68, 17, 246, 46, 41, 58, 108, 204, 128, 170, 41, 28>>>>,
  <<"sha-512/256", 266232, <<123, 199, 209, 234, 67, 118, 86, 153, 130, 78, 250, 5, 98, 143, 64, 206, 117, 201, 57, 148, 115, 42, 238, 125, 76, 48, 248, 122, 32, 47, 54, 54>>>>,
  <<"sha-512/256", 304391, <<119, 23, 203, 55, 210, 1, 174, 72, 169, 165, 109, 130, 1, 43, 156, 188, 185, 183, 204, 32, 129, 84, 6, 37, 220, 89, 163, 172, 200, 41, 58, 199>>>>,
  <<"sha3-224", 262147, <<80, 13, 237, 42, 193, 231, 49, 164, 136, 156, 137, 67, 2, 143, 206, 53, 112, 139, 223, 19, 70, 174, 255, 140, 49, 103, 142, 116>>>>,
  <<"sha3-224", 266232, <<146, 165, 195, 66, 36, 111, 220, 28, 36, 201, 132, 183, 183, 131, 248, 101, 233, 167, 74, 151, 223, 1, 81, 4, 49, 162, 205, 57>>>>,
  <<"sha3-224", 472721, <<192, 247, 109, 34, 239, 231, 166, 252, 68, 233, 107, 224, 143, 232, 176, 142, 145, 106, 17, 190, 184, 106, 126, 7, 28, 47, 246, 42>>>>,
  <<"sha3-256", 262149, <<190, 221, 37, 185, 63, 154, 245, 214, 134, 146, 138, 15, 175, 171, 53, 231, 26, 246, 125, 0, 81, 249, 120, 56, 56, 215, 216, 160, 225, 2, 152, 73>>>>,
  <<"sha3-256", 266237, <<78, 61, 25, 203, 112, 233, 138, 114, 173, 70, 31, 229, 141, 176, 233, 182, 169, 113, 28, 11, 241, 47, 5, 24, 23, 153, 236, 241, 129, 235, 98, 139>>>>,
  <<"sha3-256", 487861, <<210, 165, 31, 189, 204, 105, 142, 248, 163, 57, 158, 223, 100, 54, 90, 186, 11, 9, 140, 1, 42, 36, 20, 249, 162, 163, 21, 38, 182, 35, 84, 32>>>>,
  <<"sha3-384", 262149, <<208, 241, 197, 105, 220, 249, 5, 45, 100, 218, 220, 112, 28, 141, 78, 8, 66, 14, 33, 53, 36, 39, 185, 254, 120, 141, 82, 120, 139, 36, 188, 149, 225, 172, 59, 125, 97, 20, 113, 36, 67, 173, 50, 154, 121, 50, 157, 115>>>>,
  <<"sha3-384", 266233, <<222, 118, 0, 4, 87, 86, 231, 167, 103, 115, 147, 67, 84, 168, 97, 138, 77, 193, 17, 169, 55, 29, 6, 32, 224, 249, 145, 90, 37, 69, 35, 146, 208, 120, 4, 166, 237, 66, 246, 183, 128, 25, 37, 44, 149, 223, 52, 95>>>>,
  <<"sha3-384", 450243, <<195, 160, 30, 45, 205, 163, 116, 50, 125, 64, 210, 19, 9, 214, 163, 205, 136, 163, 141, 50, 97, 126, 68, 61, 153, 2, 122, 37, 194, 45, 209, 242, 137, 174, 20, 167, 11, 54, 64, 110, 121, 218, 96, 255, 253, 196, 41, 177>>>>,
  <<"sha3-512", 262151, <<118, 211, 211, 6, 251, 100, 212, 149, 122, 98, 99, 177, 1, 61, 193, 70, 52, 181, 185, 40, 225, 84, 250, 13, 62, 102, 65, 30, 63, 142, 60, 235, 62, 114, 234, 137, 95, 47, 95, 253, 25, 58, 61, 139, 164, 76, 1, 4, 31, 246, 150, 184, 149, 254, 244, 153, 183, 215, 116, 107, 83, 47, 250, 113>>>>,
  <<"sha3-512", 266236, <<164, 167, 73, 0, 115, 52, 166, 54, 65, 249, 83, 74, 5, 137, 28, 204, 225, 213, 254, 7, 179, 124, 119, 225, 95, 213, 87, 254, 193, 28, 60, 135, 212, 199, 11, 66, 102, 117, 248, 233, 235, 92, 194, 9, 17, 185, 15, 174, 69, 30, 146, 27, 185, 84, 247, 195, 83, 111, 203, 72, 186, 205, 120, 254>>>>,
  <<"sha3-512", 341270, <<213, 2, 53, 60, 109, 106, 224, 254, 92, 217, 124, 203, 177, 44, 87, 234, 234, 212, 36, 169, 131, 62, 144, 183, 70, 27, 184, 38, 80, 237, 233, 15, 141, 56, 213, 27, 84, 224, 17, 224, 106, 162, 9, 242, 164, 160, 129, 117, 66, 223, 41, 216, 40, 159, 125, 35, 53, 94, 51, 195, 108, 215, 179, 28>>>>,
  <<"shake-128/32", 262146, <<36, 36, 202, 21>>>>,
  <<"shake-128/32", 266237, <<38, 82, 135, 13>>>>,
  <<"shake-128/32", 341467, <<189, 59, 241, 194>>>>,
  <<"shake-128/64", 262148, <<74, 74, 72, 142, 217, 166, 51, 23>>>>,
  <<"shake-128/64", 266236, <<88, 228, 39, 58, 248, 229, 164, 159>>>>,
  <<"shake-128/64", 268468, <<161, 139, 48, 165, 2, 226, 1, 195>>>>,
  <<"shake-128/128", 262152, <<35, 153, 238, 128, 165, 229, 245, 136, 71, 53, 91, 29, 3, 57, 63, 249>>>>,
  <<"shake-128/128", 266237, <<38, 82, 135, 13, 208, 198, 140, 17, 119, 166, 179, 93, 132, 190, 7, 21>>>>,
  <<"shake-128/128", 399898, <<220, 158, 183, 117, 26, 96, 148, 17, 225, 141, 126, 12, 214, 197, 66, 157>>>>,
  <<"shake-128/256", 262149, <<204, 89, 205, 152, 10, 202, 147, 224, 69, 143, 91, 228, 221, 32, 2, 138, 249, 210, 252, 148, 2, 125, 128, 19, 156, 177, 67, 167, 237, 102, 68, 101>>>>,
  <<"shake-128/256", 266239, <<104, 143, 46, 195, 191, 92, 16, 165, 95, 130, 217, 66, 125, 208, 148, 174, 145, 151, 192, 71, 1, 246, 250, 56, 100, 237, 50, 30, 195, 231, 24, 206>>>>,
  <<"shake-128/256", 338520, <<25, 104, 69, 126, 152, 49, 194, 7, 153, 228, 136, 42, 21, 53, 16, 20, 12, 6, 206, 201, 90, 238, 243, 159, 205, 120, 76, 17, 208, 16, 220, 217>>>>,
  <<"shake-128/512", 262151, <<207, 91, 232, 208, 123, 204, 211, 180, 54, 147, 206, 15, 181, 59, 162, 17, 195, 181, 33, 214, 109, 171, 43, 19, 60, 140, 166, 172, 220, 138, 13, 30, 182, 117, 230, 223, 228, 167, 86, 58, 70, 233, 246, 56, 118, 69, 62, 125, 179, 67, 76, 71, 87, 198, 118, 118, 167, 140, 137, 56, 15, 73, 10, 252>>>>,
  <<"shake-128/512", 266234, <<154, 181, 23, 9, 134, 2, 132, 140, 250, 232, 31, 73, 102, 12, 18, 58, 200, 92, 49, 238, 133, 21, 184, 203, 163, 149, 144, 81, 95, 154, 172, 197, 120, 107, 201, 19, 97, 139, 103, 103, 125, 3, 104, 18, 36, 242, 37, 247, 220, 63, 213, 52, 143, 211, 212, 131, 120, 151, 247, 36, 202, 40, 101, 69>>>>,
  <<"shake-128/512", 429188, <<91, 144, 248, 241, 215, 136, 97, 28, 41, 133, 67, 202, 5, 116, 30, 147, 242, 228, 173, 219, 193, 229, 115, 168, 93, 24, 215, 224, 126, 17, 159, 84, 175, 243, 64, 58, 249, 243, 67, 57, 56, 122, 20, 34, 87, 186, 76, 170, 246, 173, 188, 128, 108, 29, 54, 230, 145, 92, 205, 77, 138, 36, 210, 99>>>>,
  <<"shake-128/1024", 262147, <<178, 180, 151, 238, 239, 227, 169, 69, 221, 38, 3, 188, 248, 138, 61, 209, 136, 255, 155, 242, 217, 88, 97, 213, 218, 80, 159, 142, 121, 242, 243, 140, 111, 226, 139, 249, 13, 99, 216, 126, 166, 212, 128, 138, 10, 150, 225, 139, 204, 222, 186, 118, 72, 16, 72, 160, 132, 189, 122, 61, 124, 228, 2, 132, 47, 247, 77, 245, 65, 140, 131, 159, 212, 118, 35, 38, 12, 22, 112, 142, 35, 152, 79, 160, 131, 98, 116, 179, 154, 161, 87, 66, 40, 192, 164, 120, 79, 182, 84, 9, 18, 182, 31, 113, 250, 120, 184, 4, 137, 209, 202, 173, 233, 250, 139, 192, 153, 0, 200, 109, 192, 206, 229, 108, 213, 226, 33, 62>>>>,
  <<"shake-128/1024", 266239, <<104, 143, 46, 195, 191, 92, 16, 165, 95, 130, 217, 66, 125, 208, 148, 174, 145, 151, 192, 71, 1, 246, 250, 56, 100, 237, 50, 30, 195, 231, 24, 206, 226, 223, 101, 221, 150, 31, 114, 162, 72, 3, 159, 10, 22, 38, 88, 200, 7, 111, 125, 228, 217, 231, 24, 4, 63, 251, 225, 193, 157, 74, 144, 34, 23, 206, 114, 239, 52, 208, 110, 102, 143, 124, 253, 193, 200, 222, 239, 224, 71, 142, 52, 66, 13, 194, 36, 122, 143, 12, 92, 155, 147, 6, 107, 4, 22, 236, 138, 242, 39, 120, 20, 217, 175, 99, 248, 181, 179, 239, 57, 60, 40, 221, 18, 112, 187, 172, 49, 9, 245, 132, 227, 97, 21, 100, 91, 245>>>>,
  <<"shake-128/1024", 501556, <<217, 49, 159, 187, 131, 32, 129, 63, 78, 41, 186, 53, 195, 13, 86, 92, 3, 163, 58, 201, 84, 154, 245, 229, 161, 2, 191, 180, 101, 142, 232, 220, 216, 61, 26, 155, 219, 95, 18, 249, 30, 155, 28, 19, 218, 111, 30, 162, 76, 142, 59, 26, 186, 197, 191, 240, 40, 237, 147, 65, 248, 70, 86, 42, 67, 11, 74, 112, 83, 159, 188, 139, 19, 154, 108, 14, 233, 216, 9, 8, 211, 124, 53, 70, 167, 14, 123, 137, 163, 4, 158, 130, 93, 211, 172, 137, 187, 162, 47, 62, 92, 16, 64, 236, 185, 2, 150, 29, 239, 228, 254, 104, 8, 176, 160, 207, 37, 221, 179, 99, 8, 183, 95, 79, 169, 194, 89, 41>>>>,
  <<"shake-128/2048", 262151, <<207, 91, 232, 208, 123, 204, 211, 180, 54, 147, 206, 15, 181, 59, 162, 17, 195, 181, 33, 214, 109, 171, 43, 19, 60, 140, 166, 172, 220, 138, 13, 30, 182, 117, 230, 223, 228, 167, 86, 58, 70, 233, 246, 56, 118, 69, 62, 125, 179, 67, 76, 71, 87, 198, 118, 118, 167, 140, 137, 56, 15, 73, 10, 252, 170, 149, 4, 198, 103, 162, 235, 25, 212, 232, 49, 198, 74, 165, 209, 60, 9, 118, 104, 213, 96, 235, 224, 150, 145, 209, 243, 219, 199, 193, 152, 206, 208, 149, 223, 217, 1, 110, 50, 51, 131, 218, 203, 245, 215, 70, 122, 73, 9, 25, 116, 163, 76, 62, 5, 183, 169, 114, 144, 143, 222, 10, 137, 96, 240, 132, 160, 206, 222, 251, 214, 40, 180, 16, 103, 174, 21, 109, 40, 129, 141, 141, 73, 70, 134, 204, 191, 43, 194, 63, 12, 156, 180, 5, 241, 174, 44, 60, 53, 173, 79, 111, 202, 244, 248, 94, 149, 87, 105, 156, 196, 54, 47, 232, 83, 229, 245, 240, 115, 84, 11, 9, 99, 31, 155, 87, 82, 11, 154, 192, 235, 130, 200, 195, 113, 80, 89, 200, 42, 246, 236, 184, 61, 50, 93, 37, 178, 133, 60, 166, 107, 120, 13, 61, 56, 103, 255, 183, 164, 13, 151, 86, 171, 43, 78, 17, 26, 115, 119, 215, 34, 181, 173, 176, 138, 164, 255, 25, 117, 200, 217, 141, 8, 20, 60, 16, 132, 50, 90, 69, 85, 252>>>>,
  <<"shake-128/2048", 266233, <<249, 24, 135, 112, 125, 171, 155, 134, 74, 180, 222, 11, 28, 79, 163, 148, 248, 220, 182, 131, 134, 21, 220, 42, 130, 128, 118, 172, 45, 45, 98, 72, 133, 149, 30, 107, 94, 11, 216, 144, 71, 105, 217, 62, 115, 98, 165, 234, 202, 201, 75, 189, 37, 131, 136, 97, 17, 68, 139, 119, 66, 11, 62, 155, 247, 46, 96, 250, 100, 243, 184, 64, 193, 174, 167, 220, 201, 27, 16, 73, 103, 122, 146, 179, 128, 107, 21, 58, 83, 112, 63, 161, 191, 239, 78, 33, 67, 104, 245, 151, 135, 85, 82, 98, 18, 127, 54, 189, 116, 229, 63, 65, 93, 27, 13, 171, 75, 200, 216, 146, 164, 190, 134, 143, 251, 177, 227, 207, 195, 197, 113, 90, 113, 4, 238, 41, 233, 125, 41, 99, 200, 139, 104, 134, 226, 144, 84, 154, 202, 80, 141, 193, 114, 191, 224, 101, 212, 150, 1, 100, 60, 221, 179, 147, 126, 111, 113, 36, 226, 28, 238, 157, 83, 161, 94, 173, 214, 229, 174, 237, 148, 159, 178, 179, 95, 16, 55, 91, 159, 208, 40, 179, 107, 9, 237, 179, 249, 217, 75, 107, 17, 68, 151, 23, 47, 235, 76, 107, 81, 75, 116, 50, 101, 161, 54, 26, 87, 82, 45, 99, 143, 232, 59, 5, 100, 190, 138, 111, 180, 208, 230, 89, 140, 194, 5, 249, 197, 169, 147, 224, 110, 12, 206, 35, 204, 207, 199, 27, 115, 139, 118, 129, 244, 250, 36, 17>>>>,
  <<"shake-128/2048", 471323, <<122, 116, 233, 244, 163, 203, 196, 225, 68, 116, 72, 129, 181, 39, 72, 236, 101, 66, 73, 56, 154, 237, 221, 229, 50, 70, 105, 196, 201, 188, 219, 224, 49, 181, 109, 181, 68, 36, 144, 167, 124, 50, 117, 13, 252, 59, 2, 236, 181, 241, 199, 86, 207, 93, 77, 246, 253, 36, 132, 138, 155, 185, 36, 178, 192, 194, 179, 164, 244, 185, 25, 135, 169, 136, 98, 144, 134, 144, 113, 47, 31, 129, 206, 200, 211, 95, 255, 42, 91, 237, 85, 20, 200, 42, 219, 184, 27, 64, 215, 251, 38, 92, 203, 140, 5, 146, 143, 23, 69, 45, 137, 193, 231, 7, 232, 180, 175, 139, 15, 199, 51, 242, 216, 68, 176, 241, 88, 221, 171, 122, 143, 218, 151, 22, 109, 142, 239, 45, 244, 71, 209, 125, 17, 104, 118, 149, 183, 44, 207, 225, 42, 40, 106, 155, 231, 219, 65, 55, 31, 24, 157, 159, 28, 108, 51, 37, 74, 169, 110, 99, 63, 154, 150, 28, 64, 121, 79, 195, 103, 64, 191, 171, 104, 245, 59, 150, 95, 44, 69, 115, 167, 212, 82, 143, 154, 170, 206, 92, 157, 134, 42, 235, 162, 67, 197, 150, 68, 207, 56, 70, 209, 114, 174, 123, 229, 163, 89, 145, 105, 88, 95, 241, 103, 94, 235, 207, 214, 54, 4, 203, 52, 93, 123, 212, 41, 95, 72, 168, 207, 3, 120, 101, 233, 42, 134, 90, 104, 204, 25, 175, 196, 44, 146, 193, 47, 156>>>>,
  <<"shake-256/32", 262151, <<35, 89, 79, 86>>>>,
  <<"shake-256/32", 266238, <<17, 145, 161, 225>>>>,
  <<"shake-256/32", 514600, <<15, 65, 195, 176>>>>,
  <<"shake-256/64", 262151, <<35, 89, 79, 86, 160, 105, 212, 147>>>>,
  <<"shake-256/64", 266239, <<134, 134, 177, 101, 24, 80, 126, 44>>>>,
  <<"shake-256/64", 362078, <<17, 90, 140, 182, 29, 116, 110, 208>>>>,
  <<"shake-256/128", 262146, <<233, 114, 255, 135, 193, 80, 205, 31, 126, 70, 187, 252, 165, 8, 60, 51>>>>,
  <<"shake-256/128", 266236, <<226, 59, 53, 151, 66, 140, 69, 85, 39, 105, 105, 221, 127, 101, 79, 232>>>>,
  <<"shake-256/128", 493159, <<20, 64, 64, 122, 20, 56, 217, 94, 223, 112, 218, 104, 145, 171, 159, 106>>>>,
  <<"shake-256/256", 262147, <<111, 71, 251, 6, 158, 121, 130, 204, 152, 88, 43, 30, 45, 227, 45, 121, 1, 55, 184, 59, 90, 70, 153, 220, 29, 140, 35, 56, 142, 51, 10, 168>>>>,
  <<"shake-256/256", 266238, <<17, 145, 161, 225, 234, 184, 175, 105, 251, 166, 43, 186, 154, 132, 213, 226, 68, 10, 150, 70, 109, 140, 148, 127, 129, 201, 180, 29, 180, 33, 27, 86>>>>,
  <<"shake-256/256", 440430, <<213, 12, 210, 174, 172, 93, 51, 107, 248, 226, 120, 137, 13, 37, 66, 36, 92, 71, 163, 185, 227, 12, 3, 98, 108, 254, 146, 223, 97, 237, 206, 176>>>>,
  <<"shake-256/512", 262145, <<117, 107, 130, 201, 167, 107, 116, 190, 15, 113, 95, 181, 126, 209, 104, 26, 156, 242, 124, 111, 224, 120, 98, 13, 47, 16, 32, 179, 217, 95, 165, 195, 33, 245, 82, 3, 65, 222, 39, 165, 151, 44, 27, 66, 45, 254, 58, 33, 207, 209, 106, 39, 233, 225, 35, 69, 56, 249, 15, 116, 252, 77, 204, 93>>>>,
  <<"shake-256/512", 266238, <<17, 145, 161, 225, 234, 184, 175, 105, 251, 166, 43, 186, 154, 132, 213, 226, 68, 10, 150, 70, 109, 140, 148, 127, 129, 201, 180, 29, 180, 33, 27, 86, 14, 195, 198, 196, 202, 255, 117, 168, 243, 23, 114, 239, 146, 27, 105, 185, 211, 137, 51, 65, 111, 171, 27, 72, 43, 66, 108, 51, 59, 95, 101, 50>>>>,
  <<"shake-256/512", 262266, <<61, 29, 11, 144, 49, 6, 198, 15, 86, 243, 135, 142, 186, 191, 253, 139, 22, 228, 175, 120, 32, 6, 106, 126, 161, 68, 117, 76, 150, 94, 125, 140, 2, 225, 236, 251, 149, 126, 95, 29, 120, 187, 38, 244, 237, 222, 153, 230, 191, 252, 167, 80, 63, 52, 229, 107, 126, 23, 19, 249, 38, 231, 68, 90>>>>,
  <<"shake-256/1024", 262147, <<111, 71, 251, 6, 158, 121, 130, 204, 152, 88, 43, 30, 45, 227, 45, 121, 1, 55, 184, 59, 90, 70, 153, 220, 29, 140, 35, 56, 142, 51, 10, 168, 47, 199, 194, 251, 234, 67, 25, 109, 54, 166, 38, 18, 155, 9, 66, 11, 98, 171, 12, 74, 113, 80, 34, 51, 112, 239, 2, 157, 123, 142, 170, 232, 202, 235, 50, 127, 196, 9, 151, 8, 80, 61, 217, 252, 118, 107, 172, 102, 192, 195, 25, 72, 248, 198, 139, 34, 26, 74, 173, 201, 33, 178, 251, 184, 220, 54, 242, 3, 100, 182, 237, 63, 102, 136, 16, 214, 177, 33, 182, 215, 203, 185, 142, 183, 11, 56, 20, 120, 130, 93, 62, 187, 38, 112, 125, 79>>>>,
  <<"shake-256/1024", 266238, <<17, 145, 161, 225, 234, 184, 175, 105, 251, 166, 43, 186, 154, 132, 213, 226, 68, 10, 150, 70, 109, 140, 148, 127, 129, 201, 180, 29, 180, 33, 27, 86, 14, 195, 198, 196, 202, 255, 117, 168, 243, 23, 114, 239, 146, 27, 105, 185, 211, 137, 51, 65, 111, 171, 27, 72, 43, 66, 108, 51, 59, 95, 101, 50, 137, 39, 165, 8, 231, 125, 139, 33, 136, 100, 42, 210, 94, 179, 218, 201, 212, 22, 200, 17, 157, 221, 169, 91, 226, 214, 234, 251, 223, 45, 92, 120, 111, 63, 115, 219, 96, 60, 79, 189, 176, 44, 56, 199, 117, 167, 4, 61, 179, 92, 197, 189, 114, 195, 24, 243, 124, 197, 108, 7, 152, 108, 20, 20>>>>,
  <<"shake-256/1024", 452780, <<99, 68, 141, 248, 110, 181, 216, 84, 242, 240, 219, 112, 170, 9, 218, 206, 178, 178, 154, 59, 160, 64, 221, 8, 59, 168, 195, 3, 98, 103, 138, 43, 169, 119, 219, 184, 55, 243, 252, 40, 175, 231, 105, 114, 177, 151, 156, 143, 55, 181, 79, 190, 151, 42, 191, 213, 70, 227, 237, 171, 191, 141, 94, 104, 205, 97, 160, 26, 147, 42, 50, 84, 180, 76, 90, 223, 87, 161, 94, 178, 203, 30, 13, 64, 160, 77, 38, 80, 22, 235, 242, 135, 93, 147, 63, 181, 9, 224, 170, 190, 92, 238, 238, 95, 139, 255, 238, 249, 224, 34, 62, 27, 209, 55, 134, 122, 211, 177, 228, 119, 131, 64, 232, 230, 103, 55, 86, 7>>>>,
  <<"shake-256/2048", 262145, <<117, 107, 130, 201, 167, 107, 116, 190, 15, 113, 95, 181, 126, 209, 104, 26, 156, 242, 124, 111, 224, 120, 98, 13, 47, 16, 32, 179, 217, 95, 165, 195, 33, 245, 82, 3, 65, 222, 39, 165, 151, 44, 27, 66, 45, 254, 58, 33, 207, 209, 106, 39, 233, 225, 35, 69, 56, 249, 15, 116, 252, 77, 204, 93, 135, 110, 131, 66, 37, 17, 80, 190, 197, 159, 109, 141, 212, 91, 200, 164, 241, 77, 172, 32, 87, 79, 244, 31, 119, 39, 192, 225, 229, 128, 222, 158, 25, 129, 126, 7, 245, 150, 1, 43, 189, 170, 21, 99, 104, 46, 129, 107, 232, 1, 125, 90, 145, 22, 178, 109, 69, 218, 220, 117, 203, 236, 248, 229, 178, 149, 180, 100, 43, 135, 134, 63, 235, 25, 191, 173, 136, 33, 105, 126, 83, 159, 117, 193, 245, 75, 32, 99, 26, 215, 68, 98, 100, 212, 116, 209, 201, 60, 139, 231, 179, 121, 144, 207, 73, 194, 135, 124, 113, 99, 121, 131, 1, 49, 26, 218, 190, 163, 200, 23, 138, 238, 249, 78, 214, 160, 232, 36, 163, 65, 202, 162, 112, 136, 113, 107, 238, 134, 236, 238, 6, 202, 252, 128, 13, 16, 23, 56, 212, 26, 12, 20, 150, 133, 6, 68, 88, 203, 164, 166, 241, 37, 246, 213, 25, 99, 120, 191, 118, 135, 76, 245, 93, 143, 175, 0, 159, 164, 24, 136, 28, 31, 193, 181, 152, 85, 146, 209, 221, 231, 77, 118>>>>,
  <<"shake-256/2048", 266238, <<17, 145, 161, 225, 234, 184, 175, 105, 251, 166, 43, 186, 154, 132, 213, 226, 68, 10, 150, 70, 109, 140, 148, 127, 129, 201, 180, 29, 180, 33, 27, 86, 14, 195, 198, 196, 202, 255, 117, 168, 243, 23, 114, 239, 146, 27, 105, 185, 211, 137, 51, 65, 111, 171, 27, 72, 43, 66, 108, 51, 59, 95, 101, 50, 137, 39, 165, 8, 231, 125, 139, 33, 136, 100, 42, 210, 94, 179, 218, 201, 212, 22, 200, 17, 157, 221, 169, 91, 226, 214, 234, 251, 223, 45, 92, 120, 111, 63, 115, 219, 96, 60, 79, 189, 176, 44, 56, 199, 117, 167, 4, 61, 179, 92, 197, 189, 114, 195, 24, 243, 124, 197, 108, 7, 152, 108, 20, 20, 169, 245, 165, 112, 223, 138, 24, 163, 176, 54, 13, 137, 103, 104, 217, 248, 98, 80, 10, 5, 102, 252, 246, 212, 191, 11, 37, 157, 110, 144, 193, 218, 45, 105, 54, 97, 159, 187, 105, 154, 22, 17, 55, 149, 71, 201, 139, 247, 53, 171, 130, 165, 158, 128, 49, 121, 80, 121, 59, 209, 132, 177, 200, 216, 253, 241, 200, 139, 13, 37, 200, 105, 21, 141, 152, 122, 221, 217, 140, 46, 74, 243, 204, 105, 182, 202, 175, 183, 7, 131, 25, 142, 214, 137, 116, 37, 175, 174, 76, 33, 139, 38, 88, 81, 242, 239, 94, 98, 65, 33, 67, 36, 49, 28, 196, 137, 251, 120, 254, 98, 134, 113, 175, 196, 118, 88, 181, 135>>>>,
  <<"shake-256/2048", 371171, <<36, 134, 2, 83, 25, 20, 205, 17, 20, 89, 120, 176, 246, 201, 253, 203, 134, 238, 25, 16, 129, 32, 186, 208, 184, 165, 243, 99, 3, 160, 210, 23, 191, 7, 145, 120, 93, 93, 187, 73, 132, 179, 36, 184, 119, 47, 172, 3, 38, 55, 73, 139, 140, 179, 39, 34, 7, 52, 21, 163, 169, 238, 68, 213, 147, 172, 48, 230, 48, 244, 234, 197, 46, 119, 43, 79, 71, 58, 58, 140, 155, 22, 39, 124, 175, 248, 246, 46, 218, 35, 194, 167, 134, 209, 159, 124, 185, 152, 194, 154, 170, 26, 227, 75, 254, 81, 251, 211, 160, 141, 164, 183, 155, 211, 176, 121, 224, 56, 232, 223, 16, 178, 167, 211, 243, 157, 254, 78, 114, 58, 11, 35, 58, 206, 126, 161, 217, 77, 205, 89, 92, 113, 164, 226, 58, 240, 72, 221, 73, 167, 3, 229, 98, 18, 182, 248, 47, 236, 145, 29, 41, 234, 169, 207, 161, 87, 127, 122, 147, 16, 91, 108, 175, 144, 172, 43, 253, 58, 125, 72, 3, 176, 74, 59, 66, 199, 61, 40, 90, 72, 246, 233, 5, 154, 104, 93, 112, 29, 226, 133, 146, 55, 221, 10, 118, 120, 73, 242, 213, 123, 160, 49, 146, 251, 207, 210, 19, 174, 81, 59, 43, 150, 21, 132, 206, 251, 119, 212, 143, 127, 235, 252, 210, 190, 217, 245, 95, 73, 198, 203, 40, 171, 63, 145, 204, 67, 210, 164, 154, 91, 100, 24, 84, 70, 214, 101>>>>,
  <<"xxhash64", 262151, <<150, 211, 209, 50, 60, 219, 202, 12>>>>,
  <<"xxhash64", 266237, <<123, 1, 246, 68, 73, 126, 228, 149>>>>,
  <<"xxhash64", 394399, <<143, 234, 184, 221, 75, 210, 197, 146>>>>,
  <<"xxhash32", 262150, <<63, 180, 187, 76>>>>,
  <<"xxhash32", 266234, <<56, 3, 63, 57>>>>,
  <<"xxhash32", 510735, <<194, 70, 57, 234>>>>,
  <<"sha-224", 524290, <<234, 68, 196, 188, 103, 109, 197, 81, 13, 66, 95, 221, 239, 107, 221, 68, 248, 235, 182, 215, 20, 30, 243, 161, 101, 115, 217, 255>>>>,
  <<"sha-224", 528382, <<97, 37, 254, 153, 97, 153, 226, 19, 4, 13, 185, 42, 64, 29, 233, 71, 210, 114, 242, 33, 122, 16, 0, 117, 86, 95, 233, 213>>>>,
  <<"sha-224", 1036064, <<174, 94, 95, 37, 96, 140, 21, 178, 210, 137, 49, 151, 246, 102, 236, 68, 95, 0, 203, 242, 234, 46, 10, 103, 247, 165, 61, 112>>>>,
  <<"sha-256", 524296, <<99, 79, 103, 58, 78, 63, 125, 133, 220, 209, 26, 31, 108, 181, 130, 201, 38, 86, 34, 171, 87, 26, 83, 214, 182, 233, 254, 201, 109, 11, 235, 221>>>>,
  <<"sha-256", 528376, <<211, 126, 88, 200, 243, 6, 152, 112, 189, 35, 211, 216, 117, 92, 181, 136, 157, 149, 64, 106, 200, 12, 46, 160, 57, 0, 177, 18, 77, 252, 142, 42>>>>,
  <<"sha-256", 1031625, <<64, 116, 147, 196, 133, 58, 158, 34, 113, 225, 34, 166, 239, 193, 97, 85, 221, 107, 159, 220, 220, 149, 53, 72, 149, 86, 4, 45, 5, 9, 192, 46>>>>,
  <<"sha-384", 524293, <<224, 216, 142, 206, 202, 38, 186, 13, 13, 18, 137, 37, 53, 232, 146, 135, 57, 193, 26, 195, 142, 129, 100, 130, 74, 161, 102, 118, 153, 103, 189, 12, 76, 10, 6, 169, 129, 58, 135, 91, 252, 157, 84, 187, 191, 213, 10, 85>>>>,
  <<"sha-384", 528382, <<31, 83, 175, 22, 121, 63, 171, 116, 41, 203, 114, 108, 187, 100, 198, 78, 218, 45, 115, 157, 103, 194, 168, 156, 30, 78, 206, 221, 99, 174, 135, 9, 210, 195, 245, 22, 240, 105, 45, 246, 0, 206, 163, 233, 41, 240, 68, 56>>>>,
  <<"sha-384", 675406, <<235, 7, 82, 155, 224, 100, 33, 32, 25, 24, 172, 254, 55, 219, 111, 30, 181, 158, 97, 72, 166, 62, 111, 131, 225, 157, 121, 56, 189, 71, 54, 252, 142, 194, 101, 121, 128, 29, 76, 181, 219, 23, 45, 186, 151, 168, 47, 101>>>>,
  <<"sha-512", 524290, <<48, 206, 47, 248, 232, 171, 94, 92, 166, 167, 15, 176, 112, 231, 77, 242, 190, 206, 81, 52, 65, 120, 188, 195, 65, 244, 179, 71, 236, 12, 130, 64, 233, 170, 250, 53, 194, 78, 68, 4, 54, 49, 40, 183, 249, 4, 243, 171, 254, 58, 40, 100, 132, 55, 202, 81, 218, 240, 55, 196, 106, 114, 58, 68>>>>,
  <<"sha-512", 528378, <<159, 78, 246, 93, 8, 20, 134, 113, 142, 163, 32, 128, 162, 52, 215, 141, 48, 251, 31, 54, 245, 96, 44, 11, 245, 77, 77, 183, 150, 183, 64, 231, 199, 165, 48, 195, 213, 41, 23, 51, 187, 130, 31, 191, 74, 53, 145, 123, 186, 113, 1, 12, 65, 163, 148, 192, 3, 247, 116, 16, 174, 222, 35, 204>>>>,
  <<"sha-512", 801905, <<130, 98, 39, 179, 19, 248, 120, 223, 130, 167, 38, 211, 174, 255, 10, 27, 112, 87, 203, 100, 111, 146, 92, 73, 138, 196, 123, 170, 99, 31, 60, 72, 205, 93, 90, 168, 113, 42, 240, 192, 69, 149, 21, 133, 179, 206, 255, 177, 79, 114, 32, 80, 24, 79, 231, 71, 96, 130, 38, 133, 96, 45, 78, 173>>>>,
  <<"sha-512/224", 524296, <<222, 42, 108, 116, 42, 242, 184, 3, 237, 178, 178, 140, 241, 237, 81, 190, 246, 43, 149, 16, 23, 124, 29, 56, 208, 67, 110, 194>>>>,
  <<"sha-512/224", 528381, <<157, 226, 8, 162, 77, 151, 158, 0, 152, 177, 108, 83, 137, 243, 87, 185, 186, 151, 134, 27, 110, 16, 225, 50, 114, 245, 206, 7>>>>,
  <<"sha-512/224", 548505, <<51, 128, 169, 178, 189, 118, 250, 196, 251, 161, 26, 232, 219, 33, 187, 229, 169, 46, 144, 255, 185, 218, 25, 0, 4, 162, 102, 119>>>>,
  <<"sha-512/256", 524292, <<106, 184, 114, 75, 65, 203, 2, 129, 221, 81, 109, 139, 111, 201, 221, 35, 67, 35, 51, 243, 147, 247, 145, 45, 88, 63, 211, 142, 178, 114, 219, 83>>>>,
  <<"sha-512/256", 528378, <<130, 194, 86, 25, 224, 29, 193, 145, 241, 188, 87, 29, 169, 186, 190, 67, 62, 239, 114, 33, 196, 92, 155, 197, 143, 179, 202, 180, 30, 203, 4, 148>>>>,
  <<"sha-512/256", 678011, <<77, 235, 30, 20, 98, 243, 107, 200, 207, 119, 28, 228, 220, 80, 1, 233, 104, 46, 201, 75, 114, 23, 26, 198, 171, 99, 98, 82, 199, 194, 105, 193>>>>,
  <<"sha3-224", 524289, <<31, 147, 80, 218, 64, 218, 156, 33, 147, 41, 127, 186, 168, 99, 53, 63, 94, 118, 62, 186, 197, 46, 110, 49, 2, 37, 85, 185>>>>,
  <<"sha3-224", 528379, <<126, 6, 6, 72, 235, 179, 121, 114, 158, 232, 177, 191, 228, 58, 22, 46, 154, 9, 195, 180, 195, 116, 248, 243, 167, 82, 12, 129>>>>,
  <<"sha3-224", 619719, <<208, 74, 36, 54, 136, 107, 206, 83, 103, 71, 207, 103, 173, 109, 161, 110, 7, 86, 253, 33, 115, 246, 9, 154, 194, 96, 80, 96>>>>,
  <<"sha3-256", 524293, <<145, 20, 231, 60, 127, 65, 241, 183, 191, 40, 20, 9, 141, 240, 252, 57, 97, 248, 130, 215, 3, 176, 32, 110, 207, 78, 56, 77, 203, 34, 68, 41>>>>,
  <<"sha3-256", 528378, <<190, 94, 233, 184, 6, 70, 97, 236, 161, 93, 6, 52, 24, 212, 227, 157, 9, 255, 214, 150, 217, 148, 56, 213, 86, 2, 215, 145, 22, 182, 102, 182>>>>,
  <<"sha3-256", 699444, <<82, 35, 152, 55, 11, 245, 194, 246, 44, 63, 49, 58, 211, 166, 211, 140, 45, 85, 208, 168, 250, 152, 84, 27, 91, 149, 36, 123, 146, 249, 255, 5>>>>,
  <<"sha3-384", 524294, <<22, 61, 33, 160, 93, 136, 144, 185, 251, 219, 124, 56, 48, 36, 218, 30, 31, 10, 108, 35, 231, 83, 239, 186, 43, 30, 101, 69, 240, 148, 198, 23, 167, 6, 172, 19, 184, 110, 31, 103, 119, 67, 106, 8, 222, 47, 0, 247>>>>,
  <<"sha3-384", 528380, <<164, 112, 72, 147, 243, 93, 207, 139, 105, 134, 69, 2, 104, 206, 49, 106, 55, 152, 43, 237, 134, 121, 56, 48, 244, 38, 73, 91, 129, 38, 217, 158, 90, 28, 129, 176, 203, 184, 154, 144, 43, 246, 159, 125, 134, 250, 158, 230>>>>,
  <<"sha3-384", 869966, <<124, 244, 248, 114, 14, 52, 23, 167, 170, 115, 114, 77, 244, 177, 80, 97, 50, 136, 240, 167, 91, 174, 61, 224, 176, 170, 38, 199, 209, 1, 74, 202, 26, 99, 207, 93, 145, 169, 166, 226, 54, 200, 111, 57, 243, 185, 148, 140>>>>,
  <<"sha3-512", 524292, <<181, 15, 201, 29, 152, 126, 146, 132, 149, 226, 130, 147, 140, 201, 30, 19, 182, 156, 210, 65, 139, 84, 226, 166, 158, 42, 199, 25, 170, 56, 5, 111, 73, 181, 223, 196, 209, 95, 115, 192, 44, 146, 131, 47, 45, 16, 29, 218, 214, 104, 246, 176, 192, 25, 83, 237, 53, 64, 110, 109, 22, 64, 81, 177>>>>,
  <<"sha3-512", 528380, <<112, 128, 110, 97, 212, 83, 134, 43, 23, 210, 244, 88, 36, 63, 171, 101, 69, 25, 80, 208, 29, 235, 211, 72, 1, 150, 29, 131, 236, 124, 228, 116, 167, 187, 92, 29, 231, 22, 96, 96, 49, 172, 22, 155, 133, 215, 36, 229, 100, 163, 177, 74, 211, 15, 189, 211, 96, 125, 243, 234, 90, 228, 225, 136>>>>,
  <<"sha3-512", 775304, <<241, 89, 23, 27, 93, 235, 98, 167, 223, 235, 0, 251, 63, 29, 107, 149, 82, 123, 45, 243, 211, 135, 76, 125, 123, 57, 63, 243, 145, 32, 246, 77, 140, 209, 152, 21, 7, 118, 59, 242, 210, 42, 221, 127, 190, 68, 236, 234, 68, 16, 96, 138, 233, 137, 15, 21, 69, 204, 122, 119, 43, 231, 1, 178>>>>,
  <<"shake-128/32", 524295, <<142, 246, 63, 126>>>>,
  <<"shake-128/32", 528380, <<163, 85, 178, 179>>>>,
  <<"shake-128/32", 733917, <<195, 241, 68, 248>>>>,
  <<"shake-128/64", 524296, <<234, 165, 126, 96, 168, 72, 22, 146>>>>,
  <<"shake-128/64", 528378, <<58, 57, 132, 53, 157, 175, 195, 13>>>>,
  <<"shake-128/64", 554675, <<76, 195, 246, 225, 40, 20, 59, 212>>>>,
  <<"shake-128/128", 524289, <<192, 68, 60, 22, 27, 33, 94, 230, 55, 64, 210, 184, 211, 155, 31, 92>>>>,
  <<"shake-128/128", 528379, <<225, 228, 138, 96, 71, 79, 15, 36, 219, 62, 192, 68, 147, 107, 56, 36>>>>,
  <<"shake-128/128", 1019467, <<180, 98, 94, 127, 157, 153, 195, 146, 77, 113, 2, 52, 235, 82, 44, 79>>>>,
  <<"shake-128/256", 524293, <<103, 64, 189, 48, 0, 207, 56, 74, 143, 0, 175, 199, 215, 149, 168, 164, 143, 83, 101, 181, 201, 83, 23, 106, 122, 181, 54, 143, 19, 80, 183, 133>>>>,
  <<"shake-128/256", 528380, <<163, 85, 178, 179, 176, 31, 249, 67, 53, 45, 120, 189, 184, 220, 40, 6, 220, 56, 0, 112, 215, 237, 107, 88, 225, 14, 69, 1, 139, 128, 94, 234>>>>,
  <<"shake-128/256", 885292, <<49, 5, 230, 69, 247, 79, 44, 176, 110, 181, 115, 69, 54, 181, 203, 107, 203, 170, 98, 117, 202, 237, 23, 248, 140, 123, 240, 230, 110, 199, 69, 205>>>>,
  <<"shake-128/512", 524296, <<234, 165, 126, 96, 168, 72, 22, 146, 114, 28, 207, 167, 144, 243, 27, 131, 136, 145, 50, 227, 91, 208, 63, 134, 2, 7, 188, 30, 238, 24, 39, 198, 81, 26, 25, 152, 190, 54, 180, 249, 6, 154, 171, 52, 28, 23, 99, 60, 176, 94, 114, 90, 34, 59, 215, 254, 107, 52, 129, 77, 147, 170, 86, 155>>>>,
  <<"shake-128/512", 528378, <<58, 57, 132, 53, 157, 175, 195, 13, 157, 32, 135, 241, 35, 137, 141, 121, 192, 247, 127, 4, 179, 158, 56, 118, 141, 2, 29, 185, 132, 50, 63, 3, 29, 147, 194, 74, 140, 79, 12, 190, 200, 229, 1, 82, 193, 44, 170, 116, 113, 146, 206, 33, 181, 110, 131, 192, 96, 75, 181, 106, 106, 78, 17, 18>>>>,
  <<"shake-128/512", 906636, <<179, 76, 31, 44, 14, 179, 172, 32, 43, 185, 64, 158, 221, 117, 218, 110, 129, 101, 143, 254, 6, 214, 109, 32, 226, 204, 58, 231, 135, 84, 25, 68, 114, 76, 213, 113, 82, 54, 254, 207, 144, 254, 23, 76, 111, 181, 88, 80, 81, 25, 222, 228, 2, 171, 134, 189, 32, 145, 176, 28, 157, 237, 249, 70>>>>,
  <<"shake-128/1024", 524290, <<127, 190, 54, 0, 154, 194, 170, 203, 123, 177, 240, 209, 196, 46, 234, 89, 133, 242, 16, 69, 97, 45, 43, 91, 42, 113, 145, 133, 197, 235, 67, 26, 29, 249, 194, 186, 68, 155, 187, 206, 148, 210, 79, 151, 47, 68, 84, 117, 231, 166, 204, 75, 156, 228, 99, 237, 150, 226, 100, 86, 104, 108, 9, 129, 72, 249, 155, 229, 204, 12, 89, 40, 62, 3, 92, 10, 88, 17, 97, 201, 35, 85, 157, 61, 45, 77, 181, 153, 115, 117, 59, 111, 227, 246, 178, 52, 83, 62, 162, 153, 86, 70, 230, 189, 199, 175, 178, 186, 206, 147, 217, 121, 100, 225, 43, 43, 230, 106, 77, 71, 144, 217, 69, 11, 62, 228, 227, 75>>>>,
  <<"shake-128/1024", 528380, <<163, 85, 178, 179, 176, 31, 249, 67, 53, 45, 120, 189, 184, 220, 40, 6, 220, 56, 0, 112, 215, 237, 107, 88, 225, 14, 69, 1, 139, 128, 94, 234, 52, 66, 141, 125, 72, 194, 69, 111, 253, 106, 54, 43, 36, 83, 15, 199, 242, 231, 164, 150, 219, 144, 60, 26, 234, 150, 16, 149, 38, 150, 184, 129, 227, 203, 197, 161, 58, 171, 103, 206, 204, 116, 83, 254, 20, 70, 219, 9, 164, 78, 155, 242, 118, 36, 24, 140, 223, 121, 142, 152, 75, 216, 182, 196, 43, 206, 183, 206, 89, 243, 196, 230, 245, 76, 205, 163, 47, 127, 223, 145, 61, 176, 80, 17, 171, 5, 56, 118, 63, 23, 183, 218, 115, 70, 70, 152>>>>,
  <<"shake-128/1024", 631407, <<123, 156, 147, 196, 235, 148, 104, 189, 190, 76, 225, 160, 255, 82, 2, 150, 177, 76, 15, 244, 215, 211, 128, 125, 250, 16, 130, 206, 141, 165, 120, 89, 117, 115, 103, 139, 151, 183, 41, 221, 114, 121, 230, 191, 114, 101, 93, 60, 43, 127, 91, 237, 215, 95, 225, 241, 220, 191, 16, 191, 139, 145, 105, 40, 23, 143, 100, 154, 12, 228, 78, 118, 153, 102, 59, 254, 87, 136, 108, 195, 46, 202, 254, 253, 244, 45, 110, 19, 203, 237, 10, 141, 179, 55, 222, 66, 74, 162, 111, 49, 61, 207, 255, 32, 221, 71, 227, 253, 145, 127, 158, 112, 19, 7, 44, 120, 118, 255, 196, 215, 62, 213, 71, 67, 178, 166, 149, 20>>>>,
  <<"shake-128/2048", 524292, <<95, 51, 63, 213, 49, 88, 70, 57, 99, 72, 88, 251, 103, 119, 170, 138, 150, 222, 125, 73, 103, 55, 57, 97, 154, 47, 211, 165, 130, 226, 35, 118, 247, 104, 87, 17, 99, 182, 210, 212, 45, 73, 26, 148, 160, 10, 229, 58, 119, 198, 193, 1, 114, 98, 115, 152, 5, 14, 71, 10, 201, 199, 147, 157, 238, 166, 177, 5, 233, 197, 130, 31, 67, 1, 77, 65, 196, 92, 112, 75, 254, 43, 155, 163, 196, 178, 98, 216, 236, 153, 91, 29, 14, 195, 212, 3, 78, 102, 166, 71, 67, 251, 149, 8, 120, 246, 201, 121, 135, 253, 252, 246, 235, 134, 253, 248, 21, 8, 242, 23, 177, 24, 226, 111, 105, 208, 81, 242, 31, 210, 147, 86, 115, 162, 5, 72, 67, 14, 137, 21, 101, 33, 11, 156, 60, 227, 191, 76, 69, 226, 96, 224, 218, 91, 230, 236, 88, 44, 246, 89, 39, 95, 144, 91, 14, 132, 190, 39, 8, 141, 194, 75, 8, 242, 213, 115, 182, 101, 139, 180, 223, 77, 38, 189, 70, 164, 208, 152, 42, 112, 147, 244, 85, 86, 154, 98, 189, 50, 180, 151, 191, 90, 40, 104, 201, 159, 64, 15, 156, 220, 199, 168, 250, 1, 72, 77, 199, 217, 121, 47, 142, 119, 44, 162, 3, 43, 159, 184, 191, 176, 251, 187, 70, 128, 196, 222, 202, 245, 148, 71, 26, 17, 197, 254, 122, 250, 87, 91, 212, 247, 25, 146, 104, 130, 171, 142>>>>,
  <<"shake-128/2048", 528376, <<170, 148, 191, 255, 83, 36, 168, 100, 38, 7, 203, 7, 85, 211, 222, 75, 36, 168, 245, 39, 132, 59, 174, 89, 156, 159, 123, 112, 200, 84, 129, 110, 25, 236, 63, 54, 22, 190, 75, 129, 70, 224, 98, 53, 243, 108, 126, 146, 90, 45, 167, 246, 57, 134, 201, 205, 225, 196, 110, 180, 115, 165, 63, 98, 19, 190, 184, 201, 35, 54, 232, 78, 158, 150, 141, 105, 42, 18, 127, 178, 16, 183, 74, 238, 180, 208, 238, 247, 78, 33, 15, 103, 3, 219, 174, 14, 98, 187, 50, 87, 253, 102, 233, 34, 230, 209, 92, 116, 173, 146, 131, 152, 111, 23, 222, 84, 126, 80, 40, 206, 185, 166, 21, 100, 1, 183, 147, 169, 190, 159, 219, 208, 123, 89, 103, 217, 71, 75, 2, 150, 232, 82, 136, 109, 88, 92, 86, 133, 195, 237, 244, 206, 219, 79, 88, 223, 208, 165, 135, 172, 164, 39, 209, 101, 131, 145, 87, 180, 77, 247, 131, 182, 84, 237, 143, 104, 214, 207, 173, 217, 255, 141, 227, 44, 138, 3, 28, 51, 34, 165, 80, 231, 8, 146, 20, 143, 143, 253, 95, 31, 251, 179, 255, 182, 91, 197, 55, 239, 23, 202, 197, 176, 175, 103, 131, 63, 254, 226, 159, 173, 13, 142, 148, 128, 242, 7, 89, 175, 215, 217, 82, 127, 120, 154, 136, 252, 198, 0, 229, 102, 193, 96, 208, 221, 239, 89, 179, 194, 47, 124, 112, 128, 107, 127, 2, 139>>>>,
  <<"shake-128/2048", 730549, <<117, 135, 177, 175, 143, 234, 44, 149, 50, 13, 100, 95, 100, 13, 87, 108, 119, 53, 175, 93, 224, 59, 204, 111, 65, 167, 206, 219, 247, 76, 218, 213, 0, 87, 175, 188, 46, 33, 231, 77, 208, 101, 61, 248, 18, 75, 141, 112, 190, 247, 204, 1, 28, 161, 147, 250, 94, 253, 146, 195, 238, 101, 219, 44, 228, 148, 166, 74, 32, 15, 198, 48, 206, 242, 66, 144, 77, 203, 67, 178, 139, 84, 57, 113, 130, 77, 48, 174, 205, 187, 55, 191, 53, 42, 13, 105, 152, 161, 198, 214, 157, 139, 160, 113, 216, 195, 65, 165, 110, 193, 64, 151, 245, 185, 45, 60, 38, 94, 167, 92, 128, 114, 49, 253, 249, 173, 46, 37, 149, 207, 85, 183, 231, 167, 1, 87, 193, 66, 71, 65, 244, 30, 179, 223, 11, 160, 242, 25, 133, 1, 44, 224, 237, 176, 74, 175, 149, 12, 157, 254, 51, 248, 79, 15, 84, 130, 26, 199, 59, 106, 64, 147, 125, 140, 43, 76, 149, 214, 121, 87, 107, 194, 104, 227, 39, 49, 249, 19, 159, 162, 195, 155, 85, 196, 4, 113, 158, 15, 166, 63, 30, 143, 79, 148, 85, 76, 186, 91, 100, 138, 191, 94, 227, 78, 178, 61, 58, 172, 88, 64, 147, 225, 203, 226, 181, 243, 210, 123, 2, 74, 81, 87, 154, 49, 198, 102, 7, 81, 83, 200, 56, 29, 199, 161, 82, 137, 165, 133, 125, 85, 142, 79, 43, 193, 250, 25>>>>,
  <<"shake-256/32", 524294, <<75, 98, 85, 232>>>>,
  <<"shake-256/32", 528380, <<139, 156, 7, 214>>>>,
  <<"shake-256/32", 1030386, <<6, 250, 193, 42>>>>,
  <<"shake-256/64", 524289, <<244, 103, 217, 231, 27, 140, 66, 101>>>>,
  <<"shake-256/64", 528376, <<14, 32, 84, 51, 167, 169, 8, 224>>>>,
  <<"shake-256/64", 885005, <<55, 38, 132, 169, 233, 174, 195, 112>>>>,
  <<"shake-256/128", 524290, <<144, 246, 154, 135, 90, 15, 213, 177, 136, 179, 221, 241, 1, 216, 84, 249>>>>,
  <<"shake-256/128", 528382, <<167, 159, 65, 55, 81, 84, 219, 50, 212, 251, 129, 201, 81, 89, 109, 6>>>>,
  <<"shake-256/128", 931697, <<246, 50, 46, 31, 20, 215, 40, 237, 70, 47, 194, 214, 157, 53, 161, 189>>>>,
  <<"shake-256/256", 524292, <<67, 232, 149, 142, 22, 119, 136, 26, 77, 102, 73, 98, 167, 71, 216, 133, 82, 46, 111, 0, 102, 180, 193, 167, 218, 192, 59, 212, 120, 86, 139, 4>>>>,
  <<"shake-256/256", 528376, <<14, 32, 84, 51, 167, 169, 8, 224, 221, 231, 109, 65, 111, 46, 209, 89, 25, 109, 48, 98, 107, 111, 113, 211, 69, 148, 34, 5, 15, 181, 4, 230>>>>,
  <<"shake-256/256", 711481, <<223, 4, 90, 191, 24, 51, 46, 178, 188, 74, 203, 178, 16, 172, 224, 180, 243, 159, 206, 99, 18, 184, 240, 148, 202, 82, 182, 217, 198, 210, 203, 223>>>>,
  <<"shake-256/512", 524295, <<148, 71, 9, 75, 41, 203, 94, 210, 231, 179, 121, 145, 110, 248, 127, 16, 89, 88, 190, 185, 165, 207, 143, 202, 55, 102, 88, 162, 159, 22, 182, 92, 58, 129, 237, 137, 164, 127, 255, 135, 12, 204, 236, 70, 189, 64, 81, 162, 241, 19, 241, 68, 206, 151, 180, 18, 54, 191, 177, 224, 57, 154, 208, 122>>>>,
  <<"shake-256/512", 528378, <<217, 250, 246, 236, 67, 50, 88, 138, 245, 1, 172, 205, 144, 10, 81, 61, 209, 90, 211, 52, 212, 175, 30, 57, 0, 220, 19, 243, 70, 234, 234, 229, 97, 41, 37, 250, 210, 11, 38, 13, 188, 212, 133, 40, 40, 245, 62, 166, 35, 174, 164, 22, 198, 254, 52, 126, 234, 99, 73, 247, 101, 13, 81, 73>>>>,
  <<"shake-256/512", 615251, <<191, 222, 231, 26, 27, 217, 199, 25, 196, 121, 5, 39, 106, 248, 83, 170, 21, 113, 96, 151, 149, 128, 50, 6, 168, 239, 186, 43, 51, 38, 135, 230, 73, 244, 139, 149, 66, 163, 82, 21, 151, 213, 110, 230, 138, 142, 70, 251, 110, 189, 208, 144, 172, 104, 82, 48, 74, 138, 98, 192, 128, 5, 21, 144>>>>,
  <<"shake-256/1024", 524295, <<148, 71, 9, 75, 41, 203, 94, 210, 231, 179, 121, 145, 110, 248, 127, 16, 89, 88, 190, 185, 165, 207, 143, 202, 55, 102, 88, 162, 159, 22, 182, 92, 58, 129, 237, 137, 164, 127, 255, 135, 12, 204, 236, 70, 189, 64, 81, 162, 241, 19, 241, 68, 206, 151, 180, 18, 54, 191, 177, 224, 57, 154, 208, 122, 2, 167, 181, 150, 197, 0, 160, 99, 104, 121, 109, 192, 188, 242, 193, 155, 52, 80, 215, 249, 223, 180, 60, 107, 245, 143, 243, 86, 208, 22, 202, 129, 131, 236, 165, 168, 166, 214, 52, 164, 29, 37, 29, 88, 181, 253, 188, 54, 1, 194, 12, 206, 231, 190, 68, 26, 212, 148, 168, 93, 86, 105, 134, 23>>>>,
  <<"shake-256/1024", 528376, <<14, 32, 84, 51, 167, 169, 8, 224, 221, 231, 109, 65, 111, 46, 209, 89, 25, 109, 48, 98, 107, 111, 113, 211, 69, 148, 34, 5, 15, 181, 4, 230, 207, 25, 223, 195, 242, 15, 79, 192, 240, 56, 223, 23, 217, 53, 254, 17, 131, 178, 126, 83, 81, 251, 65, 31, 137, 46, 44, 115, 58, 255, 66, 29, 151, 220, 225, 42, 210, 190, 124, 10, 205, 192, 250, 202, 128, 203, 188, 77, 49, 32, 235, 247, 129, 81, 99, 194, 242, 230, 29, 228, 195, 63, 178, 160, 220, 135, 205, 22, 95, 0, 9, 199, 152, 232, 91, 223, 0, 39, 7, 214, 210, 77, 16, 0, 121, 213, 169, 182, 99, 158, 77, 56, 244, 15, 211, 191>>>>,
  <<"shake-256/1024", 945172, <<1, 212, 78, 201, 95, 22, 66, 127, 75, 218, 202, 197, 237, 149, 231, 28, 217, 17, 52, 4, 184, 105, 43, 7, 19, 32, 199, 166, 63, 164, 157, 166, 40, 80, 156, 177, 96, 177, 234, 102, 70, 212, 224, 248, 104, 207, 117, 180, 46, 233, 131, 111, 253, 14, 178, 214, 57, 139, 111, 97, 177, 4, 53, 40, 174, 141, 141, 173, 146, 241, 87, 148, 169, 112, 163, 97, 90, 255, 162, 144, 149, 91, 64, 89, 230, 181, 127, 0, 221, 190, 12, 132, 242, 227, 210, 173, 109, 248, 71, 42, 117, 2, 117, 152, 107, 230, 124, 203, 174, 104, 207, 181, 219, 185, 80, 80, 250, 238, 154, 171, 127, 123, 100, 196, 205, 44, 49, 155>>>>,
  <<"shake-256/2048", 524290, <<144, 246, 154, 135, 90, 15, 213, 177, 136, 179, 221, 241, 1, 216, 84, 249, 71, 46, 99, 45, 78, 56, 47, 125, 115, 241, 202, 68, 78, 71, 121, 59, 55, 176, 138, 235, 189, 61, 244, 23, 189, 53, 231, 188, 161, 13, 96, 16, 126, 111, 111, 216, 34, 196, 243, 18, 83, 255, 121, 101, 240, 253, 105, 191, 224, 73, 108, 100, 26, 49, 102, 209, 7, 4, 134, 238, 107, 220, 191, 37, 237, 215, 233, 244, 241, 5, 201, 50, 120, 86, 41, 247, 202, 160, 83, 56, 28, 94, 130, 74, 87, 40, 77, 190, 18, 245, 75, 65, 225, 83, 232, 207, 174, 65, 220, 82, 179, 106, 227, 174, 119, 56, 69, 200, 160, 88, 25, 210, 22, 247, 238, 197, 100, 70, 143, 51, 29, 166, 152, 33, 202, 1, 109, 179, 177, 217, 86, 92, 39, 157, 193, 106, 31, 120, 227, 12, 108, 113, 187, 217, 82, 227, 23, 204, 193, 77, 151, 187, 156, 252, 71, 173, 187, 62, 37, 220, 97, 170, 239, 161, 112, 253, 192, 215, 137, 55, 209, 40, 212, 26, 228, 113, 204, 170, 115, 77, 151, 21, 180, 147, 100, 188, 216, 200, 203, 218, 145, 83, 162, 246, 102, 34, 90, 102, 159, 172, 144, 144, 129, 189, 134, 95, 199, 71, 246, 54, 232, 82, 33, 53, 175, 29, 241, 37, 75, 44, 75, 242, 247, 150, 11, 179, 240, 193, 142, 171, 18, 99, 64, 216, 123, 144, 225, 45, 34, 77>>>>,
  <<"shake-256/2048", 528381, <<58, 172, 196, 151, 167, 104, 68, 149, 86, 171, 11, 163, 28, 21, 79, 245, 33, 12, 75, 182, 67, 127, 233, 79, 229, 170, 58, 220, 102, 58, 208, 110, 222, 62, 102, 137, 176, 185, 90, 255, 20, 164, 181, 50, 213, 191, 217, 220, 245, 36, 132, 240, 73, 111, 220, 65, 219, 23, 164, 105, 10, 71, 34, 57, 80, 209, 231, 238, 196, 189, 44, 107, 170, 151, 214, 63, 5, 136, 22, 46, 184, 189, 234, 171, 195, 65, 106, 223, 35, 30, 228, 251, 159, 170, 162, 23, 65, 44, 211, 142, 155, 226, 105, 102, 68, 183, 88, 161, 59, 253, 21, 233, 76, 104, 194, 73, 178, 239, 39, 39, 81, 177, 179, 95, 253, 9, 246, 119, 54, 135, 243, 141, 106, 213, 165, 194, 180, 79, 242, 215, 200, 178, 195, 115, 169, 37, 42, 67, 219, 31, 78, 110, 99, 191, 51, 192, 140, 73, 65, 16, 236, 231, 254, 44, 33, 176, 167, 195, 169, 193, 111, 237, 218, 206, 99, 143, 252, 27, 82, 246, 94, 92, 147, 4, 17, 132, 51, 136, 248, 138, 87, 48, 226, 40, 127, 122, 125, 0, 232, 199, 66, 172, 188, 199, 30, 77, 164, 29, 44, 53, 243, 166, 65, 188, 181, 174, 54, 144, 229, 213, 101, 22, 208, 158, 163, 255, 73, 80, 100, 16, 29, 179, 83, 201, 197, 86, 18, 16, 158, 117, 194, 48, 13, 215, 88, 56, 81, 195, 23, 35, 134, 149, 144, 131, 191, 115>>>>,
  <<"shake-256/2048", 702549, <<229, 237, 104, 48, 147, 247, 52, 234, 60, 24, 187, 236, 228, 95, 62, 235, 139, 55, 246, 129, 110, 153, 225, 24, 113, 55, 172, 58, 30, 150, 118, 151, 105, 153, 120, 155, 36, 4, 44, 248, 102, 183, 212, 236, 179, 232, 212, 198, 245, 213, 232, 151, 175, 206, 138, 3, 185, 35, 139, 218, 162, 84, 222, 197, 126, 179, 13, 100, 251, 215, 5, 59, 236, 202, 127, 167, 120, 136, 36, 64, 54, 145, 74, 51, 133, 35, 107, 64, 254, 31, 130, 230, 245, 166, 73, 98, 42, 15, 67, 122, 198, 165, 117, 201, 107, 178, 233, 238, 119, 131, 194, 177, 8, 147, 23, 193, 112, 69, 215, 94, 146, 3, 77, 198, 174, 127, 239, 208, 12, 196, 183, 62, 210, 207, 192, 213, 221, 198, 140, 246, 220, 102, 232, 238, 153, 26, 110, 236, 255, 40, 215, 118, 14, 20, 127, 247, 125, 225, 132, 130, 77, 154, 165, 23, 112, 140, 226, 172, 157, 135, 66, 228, 194, 222, 53, 142, 98, 183, 188, 181, 153, 231, 109, 128, 98, 30, 216, 86, 86, 101, 100, 91, 149, 0, 137, 64, 39, 149, 54, 68, 19, 50, 244, 62, 153, 37, 217, 129, 96, 227, 204, 225, 156, 188, 49, 35, 104, 250, 145, 131, 52, 175, 215, 234, 34, 253, 222, 68, 111, 204, 83, 199, 20, 84, 0, 86, 101, 138, 33, 151, 26, 182, 4, 142, 248, 177, 79, 145, 65, 113, 229, 5, 211, 5, 53, 166>>>>,
  <<"xxhash64", 524291, <<98, 34, 204, 56, 236, 224, 217, 83>>>>,
  <<"xxhash64", 528383, <<111, 153, 107, 25, 13, 77, 137, 0>>>>,
  <<"xxhash64", 682780, <<208, 253, 48, 71, 130, 59, 198, 100>>>>,
  <<"xxhash32", 524296, <<233, 149, 1, 120>>>>,
  <<"xxhash32", 528381, <<227, 173, 67, 138>>>>,
  <<"xxhash32", 1021687, <<115, 50, 56, 10>>>>,
  <<"sha-224", 1048582, <<174, 65, 244, 237, 195, 91, 238, 118, 54, 89, 150, 161, 189, 110, 100, 85, 81, 8, 111, 100, 228, 229, 30, 71, 36, 141, 203, 21>>>>,
  <<"sha-224", 1052669, <<242, 225, 41, 215, 221, 54, 86, 208, 166, 24, 65, 83, 139, 46, 213, 188, 96, 6, 254, 214, 196, 255, 209, 48, 155, 205, 170, 120>>>>,
  <<"sha-224", 1323269, <<205, 129, 89, 246, 70, 117, 60, 53, 156, 250, 239, 164, 26, 105, 195, 42, 179, 221, 124, 208, 134, 203, 178, 208, 139, 31, 44, 166>>>>,
  <<"sha-256", 1048577, <<225, 9, 37, 30, 148, 116, 89, 63, 165, 67, 77, 124, 54, 133, 48, 148, 154, 14, 224, 184, 86, 145, 109, 53, 103, 116, 89, 50, 25, 127, 198, 124>>>>,
  <<"sha-256", 1052671, <<145, 151, 70, 148, 168, 95, 100, 81, 218, 26, 40, 88, 178, 75, 70, 157, 152, 245, 179, 86, 104, 53, 59, 155, 151, 1, 117, 56, 44, 9, 227, 117>>>>,
  <<"sha-256", 1264104, <<212, 67, 71, 222, 237, 22, 183, 149, 149, 186, 32, 224, 13, 128, 110, 143, 187, 144, 184, 80, 19, 233, 170, 172, 217, 127, 60, 54, 67, 119, 76, 251>>>>,
  <<"sha-384", 1048579, <<48, 13, 80, 139, 95, 179, 138, 75, 36, 0, 78, 94, 22, 122, 192, 191, 243, 61, 212, 84, 140, 48, 180, 180, 173, 14, 163, 213, 48, 58, 172, 186, 223, 156, 94, 57, 91, 196, 158, 106, 46, 210, 169, 190, 185, 43, 185, 41>>>>,
  <<"sha-384", 1052665, <<53, 75, 13, 97, 128, 16, 90, 13, 167, 28, 206, 17, 172, 152, 26, 24, 135, 1, 19, 166, 227, 111, 169, 210, 64, 219, 168, 171, 159, 160, 77, 222, 139, 106, 193, 163, 249, 137, 4, 190, 206, 88, 188, 25, 91, 239, 37, 196>>>>,
  <<"sha-384", 1457112, <<22, 101, 42, 136, 58, 174, 48, 98, 232, 97, 124, 243, 177, 68, 238, 94, 115, 90, 247, 253, 109, 85, 175, 253, 182, 202, 252, 237, 219, 155, 193, 72, 69, 111, 95, 173, 235, 7, 203, 198, 34, 160, 111, 1, 230, 179, 225, 254>>>>,
  <<"sha-512", 1048580, <<9, 172, 55, 116, 19, 16, 201, 210, 124, 204, 234, 207, 227, 221, 198, 202, 249, 78, 179, 83, 5, 30, 91, 209, 210, 203, 145, 172, 102, 126, 131, 92, 79, 223, 147, 176, 208, 31, 122, 31, 21, 121, 69, 135, 99, 200, 194, 250, 163, 32, 126, 211, 61, 48, 23, 133, 40, 134, 18, 228, 248, 59, 105, 158>>>>,
  <<"sha-512", 1052671, <<202, 25, 98, 253, 69, 121, 87, 168, 89, 254, 143, 255, 97, 29, 149, 145, 174, 230, 27, 21, 88, 3, 84, 72, 93, 65, 233, 100, 129, 223, 0, 99, 57, 198, 233, 137, 16, 228, 4, 76, 178, 117, 206, 190, 165, 46, 33, 107, 199, 245, 205, 132, 53, 183, 9, 246, 75, 52, 179, 150, 58, 215, 183, 28>>>>,
  <<"sha-512", 1576711, <<92, 148, 85, 16, 132, 218, 123, 241, 233, 247, 91, 156, 91, 235, 211, 100, 0, 30, 177, 203, 152, 139, 173, 22, 130, 134, 125, 82, 126, 197, 14, 176, 242, 72, 167, 12, 214, 165, 122, 240, 155, 34, 114, 31, 250, 85, 128, 182, 241, 24, 168, 125, 42, 141, 151, 138, 11, 34, 212, 243, 103, 132, 81, 158>>>>,
  <<"sha-512/224", 1048580, <<39, 23, 39, 130, 3, 135, 236, 168, 107, 238, 225, 160, 228, 208, 210, 56, 170, 248, 165, 28, 62, 2, 90, 9, 58, 201, 86, 85>>>>,
  <<"sha-512/224", 1052667, <<13, 33, 162, 6, 85, 214, 140, 24, 108, 158, 122, 240, 102, 113, 125, 71, 27, 227, 35, 5, 112, 146, 16, 223, 117, 138, 86, 64>>>>,
  <<"sha-512/224", 1553023, <<204, 138, 227, 186, 51, 199, 83, 224, 153, 143, 86, 175, 9, 141, 55, 143, 221, 203, 123, 221, 188, 244, 53, 26, 133, 196, 218, 28>>>>,
  <<"sha-512/256", 1048582, <<23, 249, 96, 30, 175, 88, 255, 22, 2, 166, 66, 97, 251, 0, 126, 11, 61, 140, 218, 149, 25, 16, 46, 121, 104, 39, 168, 177, 187, 139, 2, 176>>>>,
  <<"sha-512/256", 1052667, <<0, 42, 185, 71, 79, 55, 31, 127, 53, 75, 140, 149, 39, 75, 223, 118, 255, 81, 19, 102, 146, 221, 146, 42, 189, 205, 216, 56, 168, 182, 101, 110>>>>,
  <<"sha-512/256", 1927309, <<38, 168, 46, 202, 79, 91, 219, 21, 196, 136, 131, 179, 173, 93, 4, 227, 87, 86, 48, 22, 134, 237, 33, 125, 213, 139, 0, 171, 62, 77, 225, 86>>>>,
  <<"sha3-224", 1048579, <<101, 139, 236, 41, 159, 1, 175, 129, 157, 30, 216, 29, 206, 82, 110, 237, 211, 63, 193, 221, 236, 125, 240, 86, 70, 166, 69, 14>>>>,
  <<"sha3-224", 1052671, <<234, 118, 129, 1, 15, 83, 0, 12, 168, 134, 151, 116, 165, 83, 167, 158, 55, 214, 235, 177, 242, 147, 198, 45, 9, 83, 70, 74>>>>,
  <<"sha3-224", 1790514, <<75, 167, 30, 102, 238, 40, 132, 236, 7, 15, 46, 226, 47, 9, 157, 232, 248, 0, 161, 159, 34, 15, 94, 81, 111, 52, 245, 84>>>>,
  <<"sha3-256", 1048584, <<32, 143, 84, 90, 113, 3, 66, 241, 116, 195, 55, 11, 18, 87, 213, 52, 86, 27, 88, 37, 83, 243, 198, 139, 24, 53, 38, 199, 71, 4, 196, 13>>>>,
  <<"sha3-256", 1052665, <<231, 14, 95, 191, 3, 138, 183, 159, 28, 121, 81, 62, 12, 174, 205, 220, 218, 106, 28, 22, 236, 67, 106, 166, 1, 212, 215, 12, 26, 165, 123, 93>>>>,
  <<"sha3-256", 1322806, <<199, 172, 223, 110, 51, 79, 195, 253, 153, 83, 12, 189, 79, 55, 28, 82, 111, 118, 22, 252, 73, 52, 61, 183, 94, 178, 219, 239, 136, 70, 222, 184>>>>,
  <<"sha3-384", 1048579, <<54, 58, 10, 161, 171, 119, 240, 227, 54, 157, 230, 22, 215, 21, 50, 65, 193, 180, 127, 74, 38, 197, 228, 75, 169, 5, 252, 254, 135, 87, 67, 73, 17, 108, 131, 237, 246, 179, 233, 196, 73, 166, 219, 205, 55, 184, 42, 228>>>>,
  <<"sha3-384", 1052671, <<26, 147, 191, 136, 196, 154, 186, 66, 24, 196, 230, 221, 150, 252, 179, 102, 152, 115, 93, 2, 165, 26, 67, 215, 18, 1, 59, 138, 109, 72, 220, 140, 29, 253, 50, 201, 14, 188, 216, 103, 30, 194, 190, 23, 58, 145, 72, 146>>>>,
  <<"sha3-384", 1971584, <<66, 248, 172, 130, 213, 80, 105, 18, 49, 247, 73, 88, 96, 249, 3, 200, 52, 221, 211, 120, 220, 117, 96, 140, 62, 225, 243, 8, 80, 81, 87, 21, 56, 71, 46, 3, 232, 165, 235, 25, 127, 16, 1, 228, 62, 98, 98, 162>>>>,
  <<"sha3-512", 1048579, <<234, 214, 212, 194, 5, 183, 94, 193, 205, 150, 76, 5, 47, 63, 234, 174, 48, 32, 103, 246, 111, 193, 21, 52, 145, 87, 13, 55, 28, 74, 70, 221, 210, 97, 189, 113, 29, 64, 249, 137, 122, 129, 48, 243, 114, 78, 199, 43, 223, 221, 191, 12, 38, 84, 146, 53, 38, 141, 154, 6, 207, 168, 212, 195>>>>,
  <<"sha3-512", 1052671, <<3, 148, 245, 189, 239, 35, 50, 113, 122, 127, 19, 51, 181, 14, 176, 50, 126, 115, 70, 51, 28, 142, 157, 109, 114, 64, 29, 224, 155, 218, 88, 35, 218, 35, 164, 91, 76, 209, 189, 3, 205, 207, 116, 156, 124, 101, 165, 140, 5, 30, 248, 129, 170, 172, 180, 125, 88, 12, 248, 212, 205, 227, 228, 126>>>>,
  <<"sha3-512", 1362734, <<83, 219, 66, 29, 178, 234, 190, 110, 9, 220, 187, 242, 153, 237, 55, 100, 125, 149, 174, 96, 8, 76, 79, 47, 60, 118, 197, 228, 155, 170, 147, 227, 24, 111, 105, 67, 253, 54, 6, 164, 45, 49, 184, 14, 46, 225, 200, 61, 142, 243, 35, 31, 249, 210, 87, 216, 91, 2, 162, 149, 193, 220, 65, 74>>>>,
  <<"shake-128/32", 1048579, <<98, 210, 60, 14>>>>,
  <<"shake-128/32", 1052669, <<101, 37, 252, 183>>>>,
  <<"shake-128/32", 2041562, <<217, 200, 213, 172>>>>,
  <<"shake-128/64", 1048578, <<77, 255, 33, 132, 13, 178, 76, 220>>>>,
  <<"shake-128/64", 1052671, <<19, 254, 51, 119, 133, 87, 162, 15>>>>,
  <<"shake-128/64", 1732210, <<21, 231, 147, 178, 255, 148, 124, 73>>>>,
  <<"shake-128/128", 1048584, <<69, 189, 146, 240, 102, 3, 144, 162, 233, 241, 216, 237, 238, 205, 148, 37>>>>,
  <<"shake-128/128", 1052670, <<155, 246, 159, 105, 88, 180, 249, 8, 202, 81, 163, 132, 245, 226, 159, 82>>>>,
  <<"shake-128/128", 1167741, <<242, 82, 6, 8, 65, 208, 82, 50, 228, 82, 163, 245, 131, 207, 170, 17>>>>,
  <<"shake-128/256", 1048580, <<135, 228, 102, 120, 11, 58, 102, 130, 54, 207, 212, 66, 207, 200, 240, 10, 139, 178, 81, 41, 205, 117, 48, 182, 164, 114, 68, 203, 47, 90, 72, 204>>>>,
  <<"shake-128/256", 1052668, <<116, 37, 187, 139, 63, 178, 199, 3, 128, 8, 88, 219, 79, 128, 244, 93, 127, 105, 36, 214, 30, 18, 218, 180, 177, 61, 103, 105, 238, 178, 255, 157>>>>,
  <<"shake-128/256", 1629313, <<89, 251, 88, 85, 112, 33, 198, 192, 219, 63, 20, 157, 229, 133, 12, 184, 100, 147, 94, 215, 180, 85, 167, 41, 111, 115, 199, 2, 65, 111, 3, 128>>>>,
  <<"shake-128/512", 1048577, <<105, 12, 176, 1, 166, 123, 242, 51, 145, 105, 121, 220, 254, 14, 172, 11, 163, 121, 239, 189, 51, 91, 40, 247, 180, 201, 96, 115, 148, 95, 142, 233, 152, 232, 92, 157, 251, 108, 219, 87, 252, 23, 243, 186, 105, 43, 138, 144, 102, 128, 171, 67, 105, 149, 55, 157, 253, 161, 108, 137, 124, 135, 33, 159>>>>,
  <<"shake-128/512", 1052670, <<155, 246, 159, 105, 88, 180, 249, 8, 202, 81, 163, 132, 245, 226, 159, 82, 202, 176, 79, 18, 199, 115, 216, 121, 76, 110, 15, 240, 161, 224, 150, 42, 138, 167, 227, 81, 5, 197, 121, 246, 102, 65, 37, 150, 249, 164, 232, 135, 205, 203, 217, 93, 32, 165, 64, 199, 50, 132, 224, 74, 233, 219, 209, 202>>>>,
  <<"shake-128/512", 1996857, <<205, 207, 119, 203, 68, 65, 184, 67, 241, 38, 37, 147, 232, 205, 96, 92, 236, 156, 166, 83, 198, 10, 42, 17, 100, 186, 111, 44, 251, 8, 200, 166, 30, 249, 67, 176, 81, 143, 212, 190, 98, 222, 86, 127, 19, 101, 235, 33, 173, 148, 65, 143, 16, 210, 171, 98, 240, 238, 114, 225, 120, 237, 20, 226>>>>,
  <<"shake-128/1024", 1048577, <<105, 12, 176, 1, 166, 123, 242, 51, 145, 105, 121, 220, 254, 14, 172, 11, 163, 121, 239, 189, 51, 91, 40, 247, 180, 201, 96, 115, 148, 95, 142, 233, 152, 232, 92, 157, 251, 108, 219, 87, 252, 23, 243, 186, 105, 43, 138, 144, 102, 128, 171, 67, 105, 149, 55, 157, 253, 161, 108, 137, 124, 135, 33, 159, 119, 119, 209, 39, 62, 216, 189, 139, 23, 230, 220, 92, 163, 176, 220, 80, 76, 86, 126, 240, 16, 128, 200, 118, 205, 59, 159, 89, 158, 152, 103, 42, 27, 174, 75, 161, 30, 209, 146, 120, 22, 16, 119, 96, 27, 60, 220, 128, 154, 56, 48, 163, 112, 254, 7, 80, 13, 149, 138, 107, 159, 199, 25, 231>>>>,
  <<"shake-128/1024", 1052670, <<155, 246, 159, 105, 88, 180, 249, 8, 202, 81, 163, 132, 245, 226, 159, 82, 202, 176, 79, 18, 199, 115, 216, 121, 76, 110, 15, 240, 161, 224, 150, 42, 138, 167, 227, 81, 5, 197, 121, 246, 102, 65, 37, 150, 249, 164, 232, 135, 205, 203, 217, 93, 32, 165, 64, 199, 50, 132, 224, 74, 233, 219, 209, 202, 242, 104, 191, 151, 233, 244, 96, 33, 112, 41, 130, 246, 232, 127, 59, 155, 99, 95, 146, 222, 70, 178, 240, 59, 38, 65, 93, 166, 73, 103, 48, 220, 172, 9, 16, 7, 164, 111, 27, 203, 90, 13, 31, 113, 228, 221, 76, 153, 193, 230, 187, 88, 187, 126, 88, 51, 211, 34, 206, 251, 31, 10, 11, 222>>>>,
  <<"shake-128/1024", 1978135, <<164, 226, 133, 76, 255, 13, 85, 104, 143, 54, 41, 203, 28, 11, 246, 64, 15, 90, 16, 198, 225, 96, 123, 5, 199, 125, 52, 166, 248, 128, 149, 113, 36, 2, 120, 238, 196, 244, 160, 135, 138, 129, 187, 85, 145, 161, 10, 115, 135, 135, 6, 21, 139, 181, 97, 100, 35, 7, 38, 249, 212, 120, 251, 170, 250, 20, 77, 205, 246, 105, 214, 219, 91, 162, 205, 33, 207, 31, 192, 130, 0, 5, 13, 23, 130, 27, 75, 197, 112, 65, 50, 247, 150, 128, 152, 7, 94, 144, 71, 105, 26, 142, 107, 240, 76, 31, 59, 195, 71, 167, 51, 250, 174, 205, 62, 218, 120, 99, 192, 255, 37, 34, 24, 92, 223, 45, 234, 59>>>>,
  <<"shake-128/2048", 1048582, <<38, 178, 175, 210, 133, 85, 97, 62, 217, 31, 7, 118, 13, 74, 67, 249, 86, 103, 112, 68, 110, 21, 115, 171, 221, 212, 98, 244, 197, 192, 114, 69, 4, 140, 173, 57, 193, 63, 107, 150, 175, 27, 51, 17, 96, 116, 18, 144, 242, 240, 166, 215, 25, 237, 118, 182, 174, 14, 190, 142, 109, 27, 154, 84, 212, 229, 114, 128, 194, 138, 44, 149, 60, 224, 120, 217, 222, 64, 223, 155, 6, 45, 245, 118, 180, 173, 37, 225, 247, 100, 112, 54, 101, 91, 87, 179, 196, 149, 72, 29, 190, 31, 187, 26, 36, 70, 52, 58, 131, 243, 166, 209, 183, 33, 119, 222, 134, 79, 140, 162, 155, 84, 66, 158, 86, 172, 23, 80, 19, 129, 179, 65, 129, 216, 172, 204, 39, 149, 226, 127, 92, 197, 221, 197, 167, 41, 112, 110, 18, 86, 170, 141, 89, 237, 241, 240, 225, 213, 131, 133, 79, 132, 14, 66, 40, 214, 64, 250, 70, 118, 201, 237, 150, 242, 93, 175, 130, 145, 29, 32, 139, 65, 147, 222, 8, 42, 40, 225, 201, 255, 148, 64, 87, 135, 109, 72, 13, 207, 134, 88, 122, 189, 111, 243, 65, 156, 1, 20, 19, 239, 1, 15, 70, 50, 149, 8, 189, 151, 72, 142, 244, 206, 96, 99, 190, 156, 144, 121, 164, 174, 154, 245, 214, 34, 128, 118, 10, 202, 161, 85, 186, 149, 40, 42, 154, 206, 201, 97, 112, 170, 227, 58, 202, 32, 80, 67>>>>,
  <<"shake-128/2048", 1052668, <<116, 37, 187, 139, 63, 178, 199, 3, 128, 8, 88, 219, 79, 128, 244, 93, 127, 105, 36, 214, 30, 18, 218, 180, 177, 61, 103, 105, 238, 178, 255, 157, 59, 71, 6, 187, 186, 240, 226, 60, 206, 94, 63, 235, 43, 0, 247, 58, 230, 4, 22, 212, 225, 145, 184, 189, 141, 229, 6, 54, 82, 62, 184, 94, 162, 146, 83, 49, 203, 96, 223, 152, 242, 184, 154, 177, 76, 217, 235, 182, 83, 110, 151, 100, 94, 189, 125, 80, 36, 127, 85, 10, 254, 193, 158, 32, 174, 39, 226, 191, 174, 51, 77, 93, 173, 113, 127, 153, 33, 205, 169, 151, 152, 222, 80, 56, 31, 98, 234, 193, 252, 47, 108, 204, 139, 16, 37, 0, 202, 4, 165, 18, 124, 92, 153, 200, 71, 95, 142, 200, 255, 36, 96, 117, 196, 165, 98, 117, 181, 190, 10, 60, 167, 16, 39, 129, 165, 93, 30, 132, 199, 119, 111, 23, 225, 117, 0, 83, 126, 125, 116, 126, 48, 195, 134, 163, 138, 28, 48, 138, 31, 232, 255, 156, 197, 151, 160, 1, 217, 148, 72, 116, 138, 55, 68, 80, 101, 191, 165, 200, 179, 190, 89, 10, 89, 29, 188, 182, 228, 22, 199, 80, 59, 199, 102, 47, 38, 39, 224, 20, 211, 73, 15, 172, 176, 131, 86, 156, 170, 94, 121, 254, 231, 222, 168, 143, 73, 81, 175, 25, 99, 177, 208, 218, 250, 22, 113, 126, 127, 104, 234, 125, 214, 152, 120, 194>>>>,
  <<"shake-128/2048", 1629876, <<14, 42, 71, 208, 64, 28, 75, 22, 207, 181, 129, 84, 160, 68, 103, 225, 215, 205, 17, 14, 178, 7, 206, 60, 225, 96, 197, 23, 155, 189, 60, 59, 74, 59, 157, 38, 29, 147, 13, 184, 48, 25, 254, 173, 189, 204, 255, 149, 62, 168, 177, 89, 249, 3, 67, 112, 241, 167, 43, 235, 182, 152, 32, 177, 8, 46, 23, 169, 180, 182, 24, 33, 166, 74, 44, 181, 103, 149, 234, 239, 8, 25, 86, 228, 208, 7, 211, 95, 176, 133, 67, 236, 195, 17, 22, 108, 162, 202, 244, 37, 34, 199, 223, 18, 222, 91, 91, 93, 105, 13, 216, 56, 134, 182, 179, 194, 202, 9, 11, 103, 50, 134, 131, 113, 163, 8, 167, 162, 22, 232, 162, 178, 158, 74, 22, 137, 216, 14, 249, 92, 215, 135, 236, 2, 138, 42, 91, 34, 254, 204, 110, 1, 164, 88, 125, 162, 217, 250, 54, 248, 184, 225, 68, 238, 53, 222, 183, 199, 154, 242, 239, 250, 21, 94, 93, 234, 240, 136, 92, 135, 162, 102, 43, 237, 145, 239, 121, 130, 12, 53, 132, 205, 138, 147, 137, 102, 2, 249, 34, 253, 246, 23, 15, 157, 148, 127, 12, 104, 204, 78, 60, 216, 227, 54, 228, 119, 42, 62, 108, 7, 228, 132, 136, 193, 28, 174, 93, 7, 176, 79, 92, 206, 232, 18, 143, 189, 165, 119, 5, 122, 153, 97, 196, 80, 26, 160, 19, 157, 179, 72, 212, 61, 193, 72, 46, 106>>>>,
  <<"shake-256/32", 1048584, <<212, 141, 178, 229>>>>,
  <<"shake-256/32", 1052664, <<99, 151, 118, 202>>>>,
  <<"shake-256/32", 1567947, <<251, 104, 10, 16>>>>,
  <<"shake-256/64", 1048581, <<234, 222, 53, 70, 169, 227, 223, 55>>>>,
  <<"shake-256/64", 1052668, <<148, 149, 84, 203, 238, 2, 36, 236>>>>,
  <<"shake-256/64", 1987110, <<162, 254, 112, 99, 209, 200, 36, 113>>>>,
  <<"shake-256/128", 1048579, <<13, 241, 213, 122, 50, 173, 24, 235, 119, 242, 20, 242, 96, 28, 56, 176>>>>,
  <<"shake-256/128", 1052665, <<186, 87, 46, 32, 193, 151, 167, 84, 72, 111, 222, 100, 54, 4, 58, 160>>>>,
  <<"shake-256/128", 1303635, <<190, 111, 147, 70, 23, 34, 243, 42, 19, 254, 146, 10, 183, 171, 34, 231>>>>,
  <<"shake-256/256", 1048583, <<10, 139, 153, 160, 215, 7, 152, 144, 148, 242, 133, 244, 218, 47, 72, 144, 63, 98, 146, 18, 16, 135, 123, 106, 40, 48, 206, 109, 225, 5, 32, 183>>>>,
  <<"shake-256/256", 1052664, <<99, 151, 118, 202, 238, 7, 151, 217, 245, 224, 191, 216, 111, 17, 18, 199, 159, 42, 87, 169, 97, 38, 223, 71, 34, 94, 169, 63, 236, 76, 12, 95>>>>,
  <<"shake-256/256", 1711233, <<70, 207, 161, 252, 255, 155, 55, 5, 204, 175, 79, 209, 61, 107, 186, 128, 6, 112, 235, 98, 187, 76, 185, 58, 88, 93, 212, 20, 7, 209, 143, 237>>>>,
  <<"shake-256/512", 1048578, <<51, 240, 203, 130, 51, 82, 103, 65, 88, 193, 159, 76, 239, 210, 189, 213, 136, 139, 83, 151, 237, 155, 131, 195, 74, 248, 114, 233, 101, 64, 91, 41, 64, 134, 220, 60, 54, 88, 67, 73, 255, 49, 0, 155, 102, 134, 79, 68, 209, 28, 116, 212, 47, 207, 33, 160, 241, 232, 45, 64, 142, 179, 105, 181>>>>,
  <<"shake-256/512", 1052668, <<148, 149, 84, 203, 238, 2, 36, 236, 102, 9, 95, 60, 87, 99, 244, 167, 253, 131, 34, 78, 146, 126, 59, 249, 146, 7, 106, 106, 97, 130, 236, 22, 223, 46, 246, 152, 166, 141, 26, 9, 98, 226, 125, 29, 33, 11, 152, 196, 93, 241, 221, 118, 121, 201, 147, 55, 111, 141, 37, 223, 173, 157, 235, 1>>>>,
  <<"shake-256/512", 1946867, <<73, 192, 130, 223, 225, 17, 90, 56, 178, 199, 227, 59, 55, 146, 244, 176, 17, 189, 194, 38, 73, 128, 150, 220, 121, 19, 158, 53, 118, 213, 57, 236, 53, 84, 114, 219, 7, 74, 206, 109, 27, 185, 252, 71, 161, 1, 75, 97, 249, 118, 17, 169, 34, 103, 60, 20, 111, 247, 167, 135, 110, 219, 120, 46>>>>,
  <<"shake-256/1024", 1048578, <<51, 240, 203, 130, 51, 82, 103, 65, 88, 193, 159, 76, 239, 210, 189, 213, 136, 139, 83, 151, 237, 155, 131, 195, 74, 248, 114, 233, 101, 64, 91, 41, 64, 134, 220, 60, 54, 88, 67, 73, 255, 49, 0, 155, 102, 134, 79, 68, 209, 28, 116, 212, 47, 207, 33, 160, 241, 232, 45, 64, 142, 179, 105, 181, 221, 251, 171, 116, 62, 197, 60, 126, 109, 136, 43, 77, 188, 112, 29, 37, 155, 124, 208, 16, 58, 33, 116, 232, 221, 130, 176, 115, 210, 52, 93, 165, 83, 147, 181, 41, 142, 197, 60, 44, 235, 120, 226, 105, 254, 100, 182, 14, 239, 117, 32, 192, 52, 76, 184, 58, 111, 4, 226, 122, 64, 158, 22, 182>>>>,
  <<"shake-256/1024", 1052668, <<148, 149, 84, 203, 238, 2, 36, 236, 102, 9, 95, 60, 87, 99, 244, 167, 253, 131, 34, 78, 146, 126, 59, 249, 146, 7, 106, 106, 97, 130, 236, 22, 223, 46, 246, 152, 166, 141, 26, 9, 98, 226, 125, 29, 33, 11, 152, 196, 93, 241, 221, 118, 121, 201, 147, 55, 111, 141, 37, 223, 173, 157, 235, 1, 123, 187, 7, 105, 9, 243, 56, 142, 20, 120, 172, 44, 106, 131, 31, 76, 117, 88, 202, 63, 83, 244, 198, 241, 205, 26, 24, 49, 119, 190, 208, 78, 237, 131, 155, 228, 253, 232, 77, 249, 90, 115, 8, 168, 214, 199, 140, 140, 158, 248, 128, 233, 157, 119, 121, 233, 212, 19, 206, 46, 219, 241, 94, 122>>>>,
  <<"shake-256/1024", 1683551, <<0, 182, 144, 248, 63, 228, 181, 59, 133, 110, 21, 35, 37, 150, 174, 137, 224, 8, 250, 65, 49, 55, 86, 60, 71, 190, 146, 110, 42, 115, 124, 199, 90, 202, 153, 140, 201, 228, 179, 109, 142, 200, 124, 36, 227, 92, 12, 43, 61, 94, 97, 25, 51, 93, 9, 149, 83, 139, 94, 156, 251, 62, 136, 43, 168, 188, 152, 23, 151, 109, 66, 244, 41, 98, 93, 39, 80, 211, 122, 123, 114, 180, 0, 74, 201, 195, 188, 205, 55, 59, 6, 86, 228, 94, 227, 225, 167, 181, 40, 58, 157, 224, 65, 177, 193, 245, 34, 36, 207, 164, 197, 201, 41, 151, 182, 142, 36, 111, 12, 248, 237, 237, 176, 141, 70, 90, 73, 143>>>>,
  <<"shake-256/2048", 1048578, <<51, 240, 203, 130, 51, 82, 103, 65, 88, 193, 159, 76, 239, 210, 189, 213, 136, 139, 83, 151, 237, 155, 131, 195, 74, 248, 114, 233, 101, 64, 91, 41, 64, 134, 220, 60, 54, 88, 67, 73, 255, 49, 0, 155, 102, 134, 79, 68, 209, 28, 116, 212, 47, 207, 33, 160, 241, 232, 45, 64, 142, 179, 105, 181, 221, 251, 171, 116, 62, 197, 60, 126, 109, 136, 43, 77, 188, 112, 29, 37, 155, 124, 208, 16, 58, 33, 116, 232, 221, 130, 176, 115, 210, 52, 93, 165, 83, 147, 181, 41, 142, 197, 60, 44, 235, 120, 226, 105, 254, 100, 182, 14, 239, 117, 32, 192, 52, 76, 184, 58, 111, 4, 226, 122, 64, 158, 22, 182, 242, 211, 16, 223, 110, 55, 134, 171, 160, 247, 206, 52, 81, 111, 183, 191, 159, 4, 170, 158, 114, 55, 91, 1, 103, 108, 188, 191, 212, 80, 249, 116, 167, 243, 183, 242, 117, 17, 194, 110, 180, 138, 23, 36, 98, 94, 83, 173, 4, 79, 124, 249, 234, 210, 49, 187, 213, 54, 130, 58, 137, 209, 109, 87, 163, 59, 22, 185, 65, 110, 41, 192, 223, 247, 151, 211, 203, 199, 155, 243, 98, 108, 74, 132, 107, 34, 138, 112, 232, 67, 248, 147, 226, 145, 97, 123, 118, 200, 78, 153, 169, 59, 131, 11, 162, 241, 101, 116, 174, 70, 127, 19, 75, 3, 17, 93, 43, 65, 149, 101, 189, 248, 5, 204, 180, 59, 45, 68>>>>,
  <<"shake-256/2048", 1052669, <<127, 124, 59, 102, 7, 23, 251, 106, 169, 248, 106, 74, 143, 7, 4, 57, 234, 172, 5, 84, 174, 253, 52, 36, 194, 211, 84, 205, 119, 246, 251, 22, 167, 227, 230, 212, 102, 4, 60, 157, 10, 104, 110, 101, 4, 137, 6, 125, 221, 99, 144, 27, 29, 103, 202, 240, 235, 12, 28, 17, 222, 224, 87, 141, 24, 154, 19, 196, 173, 139, 49, 251, 176, 17, 191, 111, 46, 209, 41, 62, 221, 70, 236, 204, 8, 119, 142, 7, 234, 194, 228, 219, 126, 205, 194, 233, 180, 126, 228, 135, 191, 169, 18, 245, 4, 154, 142, 114, 233, 196, 41, 89, 60, 29, 192, 47, 171, 151, 30, 5, 234, 128, 130, 51, 184, 82, 122, 150, 159, 185, 95, 0, 220, 242, 227, 127, 117, 115, 27, 17, 3, 158, 136, 24, 173, 18, 172, 224, 111, 134, 15, 90, 190, 71, 41, 170, 139, 222, 203, 176, 192, 15, 98, 177, 187, 27, 190, 3, 135, 237, 28, 118, 186, 167, 50, 139, 10, 208, 42, 53, 62, 42, 71, 252, 29, 64, 101, 218, 210, 94, 21, 150, 149, 3, 144, 45, 105, 96, 136, 245, 56, 156, 48, 180, 218, 20, 32, 224, 77, 155, 41, 39, 91, 155, 230, 1, 67, 171, 144, 85, 148, 134, 60, 42, 240, 134, 144, 69, 159, 224, 175, 10, 145, 211, 245, 81, 205, 148, 172, 201, 37, 19, 180, 93, 126, 162, 221, 157, 112, 118, 165, 71, 148, 64, 156, 251>>>>,
  <<"shake-256/2048", 1816518, <<40, 234, 252, 132, 252, 175, 130, 67, 194, 167, 226, 135, 224, 236, 37, 14, 147, 250, 153, 13, 235, 147, 254, 200, 117, 22, 24, 59, 115, 13, 77, 128, 167, 118, 8, 150, 128, 170, 225, 110, 212, 80, 46, 45, 162, 119, 77, 107, 193, 25, 74, 166, 250, 175, 126, 95, 116, 17, 104, 153, 0, 93, 81, 219, 83, 209, 178, 141, 132, 148, 172, 226, 182, 92, 15, 65, 181, 95, 101, 187, 154, 242, 77, 193, 229, 137, 91, 37, 118, 44, 69, 171, 125, 180, 3, 242, 232, 176, 111, 141, 180, 244, 95, 62, 60, 169, 249, 113, 73, 220, 73, 21, 158, 4, 168, 234, 186, 178, 27, 184, 242, 237, 112, 235, 44, 221, 72, 155, 137, 199, 25, 85, 29, 210, 237, 230, 246, 90, 198, 31, 132, 119, 146, 48, 73, 12, 142, 115, 3, 31, 164, 146, 147, 135, 61, 179, 114, 144, 55, 207, 114, 57, 91, 191, 117, 232, 94, 64, 149, 124, 132, 67, 254, 131, 232, 24, 44, 226, 69, 168, 238, 224, 156, 128, 255, 199, 96, 38, 61, 231, 63, 10, 187, 88, 109, 18, 178, 188, 7, 159, 118, 179, 39, 242, 209, 100, 40, 245, 138, 7, 137, 239, 161, 74, 51, 53, 204, 188, 21, 20, 36, 151, 131, 158, 248, 184, 218, 187, 2, 250, 198, 13, 30, 20, 175, 67, 132, 131, 94, 218, 81, 89, 172, 85, 161, 79, 168, 212, 125, 101, 135, 126, 11, 54, 77, 211>>>>,
  <<"xxhash64", 1048579, <<104, 57, 54, 224, 83, 181, 136, 160>>>>,
  <<"xxhash64", 1052667, <<125, 155, 196, 141, 12, 28, 194, 255>>>>,
  <<"xxhash64", 1336419, <<152, 144, 180, 206, 4, 220, 35, 171>>>>,
  <<"xxhash32", 1048584, <<150, 255, 15, 226>>>>,
  <<"xxhash32", 1052668, <<43, 9, 23, 241>>>>,
  <<"xxhash32", 1245971, <<169, 163, 186, 186>>>>,
  <<"sha-224", 2097159, <<176, 195, 72, 179, 123, 119, 80, 102, 75, 215, 83, 135, 154, 163, 179, 187, 126, 97, 226, 8, 149, 94, 156, 33, 234, 208, 233, 187>>>>,
  <<"sha-224", 2101240, <<35, 222, 239, 206, 92, 56, 47, 235, 196, 176, 58, 146, 165, 1, 17, 30, 113, 35, 100, 192, 166, 109, 1, 125, 50, 111, 4, 230>>>>,
  <<"sha-224", 2779964, <<125, 175, 72, 96, 191, 228, 189, 20, 8, 97, 228, 117, 150, 120, 95, 218, 200, 199, 246, 50, 185, 102, 187, 210, 173, 100, 70, 237>>>>,
  <<"sha-256", 2097156, <<23, 106, 200, 224, 42, 198, 55, 27, 158, 9, 87, 29, 111, 67, 88, 172, 183, 181, 5, 225, 107, 78, 53, 59, 132, 252, 17, 183, 134, 6, 227, 196>>>>,
  <<"sha-256", 2101245, <<209, 180, 164, 78, 143, 230, 131, 124, 206, 177, 211, 100, 9, 198, 56, 64, 255, 18, 63, 169, 213, 148, 123, 202, 126, 247, 244, 71, 33, 66, 86, 20>>>>,
  <<"sha-256", 3907085, <<65, 194, 104, 12, 81, 20, 118, 51, 158, 54, 247, 230, 214, 78, 181, 192, 12, 39, 140, 192, 105, 172, 48, 250, 73, 175, 11, 182, 70, 45, 53, 45>>>>,
  <<"sha-384", 2097159, <<18, 229, 81, 129, 76, 54, 166, 33, 203, 183, 105, 156, 28, 168, 108, 39, 167, 185, 122, 19, 239, 31, 228, 155, 83, 16, 67, 23, 147, 117, 250, 226, 173, 231, 38, 70, 27, 64, 81, 88, 65, 88, 6, 163, 74, 62, 133, 234>>>>,
  <<"sha-384", 2101242, <<135, 2, 107, 90, 19, 169, 67, 50, 164, 116, 159, 70, 43, 130, 225, 27, 162, 144, 126, 30, 207, 148, 14, 157, 211, 91, 253, 157, 218, 22, 208, 76, 181, 105, 85, 140, 192, 140, 231, 170, 255, 70, 74, 14, 143, 11, 206, 186>>>>,
  <<"sha-384", 3864113, <<221, 7, 2, 94, 7, 148, 201, 138, 174, 231, 115, 110, 178, 109, 185, 34, 33, 230, 197, 60, 145, 170, 230, 159, 218, 153, 119, 222, 35, 148, 54, 194, 61, 245, 15, 210, 246, 64, 214, 142, 78, 14, 124, 113, 223, 120, 56, 41>>>>,
  <<"sha-512", 2097156, <<49, 154, 174, 101, 241, 237, 64, 25, 5, 69, 74, 155, 223, 165, 10, 196, 161, 72, 20, 208, 7, 215, 38, 62, 96, 217, 145, 91, 179, 186, 113, 115, 104, 141, 160, 225, 51, 19, 18, 232, 175, 176, 242, 128, 235, 251, 25, 177, 103, 138, 31, 89, 6, 191, 37, 184, 121, 135, 179, 157, 14, 193, 12, 102>>>>,
  <<"sha-512", 2101242, <<119, 8, 237, 173, 102, 248, 224, 234, 180, 60, 115, 124, 96, 51, 152, 253, 45, 33, 132, 188, 121, 159, 69, 218, 238, 111, 91, 57, 36, 139, 38, 94, 35, 111, 15, 198, 63, 111, 202, 20, 26, 197, 127, 4, 58, 127, 60, 91, 61, 36, 25, 133, 199, 86, 110, 124, 100, 19, 100, 255, 156, 47, 118, 29>>>>,
  <<"sha-512", 3433145, <<10, 22, 116, 113, 144, 188, 32, 35, 107, 190, 97, 217, 168, 229, 51, 81, 129, 39, 244, 179, 6, 37, 214, 103, 89, 67, 22, 147, 187, 217, 53, 224, 119, 47, 120, 94, 234, 58, 153, 61, 158, 210, 186, 241, 13, 249, 63, 48, 237, 230, 133, 28, 29, 203, 44, 98, 219, 22, 48, 152, 48, 222, 141, 6>>>>,
  <<"sha-512/224", 2097154, <<9, 140, 133, 232, 215, 135, 184, 252, 106, 167, 73, 26, 29, 209, 142, 105, 169, 51, 58, 108, 41, 113, 30, 30, 27, 35, 199, 205>>>>,
  <<"sha-512/224", 2101242, <<245, 0, 156, 12, 185, 254, 144, 116, 84, 242, 4, 161, 82, 226, 16, 170, 181, 31, 180, 129, 184, 83, 205, 142, 21, 123, 195, 75>>>>,
  <<"sha-512/224", 2178869, <<229, 57, 204, 30, 91, 25, 231, 227, 193, 23, 241, 246, 219, 154, 155, 135, 10, 47, 64, 41, 159, 244, 8, 59, 250, 138, 138, 198>>>>,
  <<"sha-512/256", 2097158, <<232, 56, 42, 143, 60, 4, 27, 21, 206, 4, 8, 242, 43, 11, 185, 213, 33, 14, 111, 172, 15, 109, 36, 176, 6, 164, 134, 220, 185, 43, 25, 51>>>>,
  <<"sha-512/256", 2101240, <<241, 66, 240, 47, 73, 136, 142, 68, 129, 26, 221, 184, 148, 30, 131, 24, 26, 36, 236, 13, 121, 64, 25, 0, 18, 59, 118, 11, 62, 165, 105, 74>>>>,
  <<"sha-512/256", 3944567, <<112, 120, 11, 0, 246, 40, 115, 218, 222, 203, 109, 127, 39, 213, 88, 152, 124, 147, 136, 49, 86, 100, 199, 10, 183, 80, 47, 52, 218, 80, 234, 252>>>>,
  <<"sha3-224", 2097153, <<215, 33, 111, 119, 230, 168, 140, 233, 231, 120, 49, 106, 243, 18, 254, 205, 132, 11, 148, 144, 188, 160, 71, 45, 136, 201, 222, 185>>>>,
  <<"sha3-224", 2101241, <<40, 134, 114, 124, 160, 28, 171, 77, 14, 151, 138, 220, 185, 52, 72, 89, 86, 200, 228, 190, 211, 12, 248, 141, 4, 43, 103, 81>>>>,
  <<"sha3-224", 3487554, <<232, 156, 194, 170, 61, 195, 215, 170, 105, 145, 47, 41, 66, 188, 247, 116, 133, 113, 78, 152, 187, 82, 131, 4, 124, 110, 157, 17>>>>,
  <<"sha3-256", 2097157, <<126, 111, 197, 66, 241, 192, 143, 242, 238, 16, 253, 233, 165, 87, 202, 51, 157, 186, 238, 31, 8, 248, 135, 221, 88, 99, 234, 217, 37, 82, 141, 146>>>>,
  <<"sha3-256", 2101246, <<216, 17, 49, 215, 51, 248, 133, 63, 112, 250, 199, 4, 92, 239, 42, 145, 35, 107, 114, 1, 118, 13, 170, 86, 234, 52, 7, 180, 74, 55, 99, 121>>>>,
  <<"sha3-256", 2570479, <<42, 15, 193, 113, 157, 209, 7, 116, 54, 41, 31, 236, 68, 101, 196, 121, 98, 178, 222, 116, 81, 66, 151, 180, 71, 169, 18, 229, 110, 181, 17, 254>>>>,
  <<"sha3-384", 2097156, <<236, 11, 228, 35, 157, 106, 36, 68, 156, 213, 178, 202, 240, 164, 210, 183, 237, 121, 8, 83, 88, 98, 168, 197, 245, 104, 91, 37, 27, 103, 160, 12, 137, 76, 139, 109, 70, 17, 141, 180, 212, 146, 71, 251, 215, 66, 175, 3>>>>,
  <<"sha3-384", 2101246, <<176, 228, 205, 138, 134, 11, 242, 72, 23, 143, 47, 132, 143, 101, 134, 196, 232, 153, 246, 100, 60, 44, 55, 78, 81, 235, 242, 198, 187, 108, 176, 20, 141, 89, 114, 156, 142, 81, 230, 90, 101, 16, 41, 11, 159, 131, 46, 130>>>>,
  <<"sha3-384", 2449730, <<205, 40, 119, 74, 179, 7, 202, 157, 113, 201, 6, 254, 210, 207, 30, 5, 7, 193, 188, 119, 112, 207, 210, 119, 118, 82, 35, 213, 217, 67, 155, 88, 244, 31, 27, 161, 70, 178, 154, 15, 25, 127, 176, 165, 188, 124, 215, 165>>>>,
  <<"sha3-512", 2097157, <<17, 222, 162, 247, 11, 134, 121, 128, 156, 55, 8, 146, 31, 168, 144, 231, 231, 236, 215, 255, 132, 130, 231, 69, 241, 149, 65, 3, 206, 17, 113, 109, 8, 22, 20, 187, 4, 65, 178, 24, 0, 217, 55, 196, 15, 209, 208, 46, 124, 197, 4, 42, 181, 148, 82, 127, 37, 239, 124, 180, 178, 108, 13, 239>>>>,
  <<"sha3-512", 2101243, <<236, 94, 23, 114, 239, 160, 183, 20, 44, 96, 11, 129, 94, 157, 69, 251, 29, 9, 42, 53, 41, 207, 130, 179, 129, 245, 68, 87, 139, 171, 131, 254, 180, 121, 196, 231, 221, 161, 107, 144, 110, 108, 92, 199, 108, 31, 95, 182, 168, 100, 234, 89, 179, 104, 93, 162, 173, 187, 56, 103, 186, 125, 8, 108>>>>,
  <<"sha3-512", 2263196, <<43, 110, 191, 101, 212, 163, 187, 29, 242, 30, 23, 122, 24, 35, 41, 27, 236, 20, 10, 43, 207, 42, 156, 138, 68, 11, 149, 16, 200, 249, 230, 19, 86, 52, 165, 89, 143, 108, 23, 7, 175, 149, 5, 28, 164, 171, 205, 197, 181, 30, 244, 220, 254, 146, 188, 182, 198, 43, 126, 65, 159, 139, 252, 20>>>>,
  <<"shake-128/32", 2097155, <<109, 224, 160, 133>>>>,
  <<"shake-128/32", 2101243, <<238, 195, 138, 153>>>>,
  <<"shake-128/32", 2640547, <<103, 250, 164, 171>>>>,
  <<"shake-128/64", 2097159, <<82, 10, 78, 3, 159, 109, 248, 52>>>>,
  <<"shake-128/64", 2101243, <<238, 195, 138, 153, 215, 242, 214, 118>>>>,
  <<"shake-128/64", 3799820, <<183, 27, 192, 131, 26, 202, 79, 198>>>>,
  <<"shake-128/128", 2097155, <<109, 224, 160, 133, 139, 20, 73, 136, 139, 171, 132, 195, 129, 137, 170, 56>>>>,
  <<"shake-128/128", 2101240, <<75, 49, 9, 184, 101, 143, 236, 21, 155, 127, 23, 117, 111, 90, 9, 168>>>>,
  <<"shake-128/128", 3468892, <<111, 101, 182, 112, 36, 121, 179, 39, 104, 145, 220, 82, 192, 128, 53, 190>>>>,
  <<"shake-128/256", 2097154, <<49, 232, 71, 79, 149, 239, 145, 69, 193, 12, 198, 185, 243, 103, 150, 32, 16, 117, 104, 179, 35, 104, 96, 218, 194, 86, 121, 36, 173, 87, 204, 242>>>>,
  <<"shake-128/256", 2101243, <<238, 195, 138, 153, 215, 242, 214, 118, 252, 94, 14, 97, 167, 254, 55, 95, 50, 116, 48, 81, 57, 210, 74, 182, 42, 33, 32, 80, 114, 23, 120, 155>>>>,
  <<"shake-128/256", 2338435, <<26, 98, 35, 145, 13, 151, 204, 141, 47, 67, 126, 178, 176, 191, 172, 199, 168, 225, 59, 153, 62, 193, 104, 195, 113, 175, 97, 158, 242, 14, 59, 190>>>>,
  <<"shake-128/512", 2097155, <<109, 224, 160, 133, 139, 20, 73, 136, 139, 171, 132, 195, 129, 137, 170, 56, 174, 156, 211, 153, 10, 190, 233, 221, 241, 95, 87, 219, 181, 36, 37, 187, 144, 109, 231, 161, 40, 58, 210, 185, 148, 75, 94, 174, 211, 20, 216, 106, 111, 245, 196, 118, 146, 208, 199, 255, 192, 185, 84, 208, 29, 149, 88, 61>>>>,
  <<"shake-128/512", 2101241, <<147, 92, 148, 239, 247, 214, 128, 199, 147, 76, 50, 217, 42, 248, 151, 33, 77, 252, 235, 53, 126, 174, 26, 60, 52, 102, 221, 251, 168, 226, 25, 44, 169, 158, 221, 97, 212, 51, 202, 174, 218, 234, 70, 172, 16, 87, 137, 219, 45, 107, 245, 27, 243, 244, 230, 117, 206, 116, 233, 30, 213, 233, 169, 118>>>>,
  <<"shake-128/512", 2400878, <<246, 14, 181, 182, 226, 142, 73, 15, 171, 29, 226, 98, 149, 120, 109, 216, 25, 223, 203, 46, 221, 26, 171, 105, 126, 203, 208, 230, 36, 202, 155, 245, 139, 174, 174, 173, 5, 98, 255, 20, 113, 2, 65, 160, 249, 26, 210, 219, 49, 26, 76, 107, 150, 131, 202, 187, 57, 204, 179, 182, 111, 218, 47, 165>>>>,
  <<"shake-128/1024", 2097157, <<71, 224, 244, 121, 207, 14, 203, 52, 17, 195, 113, 108, 224, 243, 62, 101, 179, 224, 201, 6, 64, 198, 185, 205, 14, 243, 249, 228, 166, 240, 211, 126, 49, 41, 124, 203, 191, 103, 140, 228, 34, 154, 131, 23, 153, 101, 170, 249, 195, 123, 197, 79, 58, 177, 161, 151, 191, 237, 97, 225, 111, 175, 233, 169, 244, 221, 210, 178, 145, 141, 35, 15, 172, 53, 178, 116, 163, 100, 219, 49, 83, 122, 136, 147, 195, 246, 145, 250, 232, 38, 61, 59, 1, 36, 24, 113, 205, 78, 186, 112, 100, 217, 69, 86, 171, 251, 159, 209, 150, 190, 222, 173, 89, 172, 124, 105, 46, 221, 245, 219, 241, 162, 45, 31, 136, 94, 228, 127>>>>,
  <<"shake-128/1024", 2101247, <<103, 59, 146, 196, 23, 62, 30, 135, 154, 33, 132, 57, 225, 36, 218, 40, 7, 195, 135, 183, 185, 149, 153, 226, 166, 0, 228, 48, 133, 41, 68, 230, 189, 78, 215, 84, 4, 41, 232, 39, 247, 55, 145, 186, 158, 104, 249, 53, 123, 13, 229, 48, 151, 198, 31, 174, 153, 11, 86, 123, 207, 73, 73, 219, 52, 207, 124, 121, 85, 19, 102, 233, 232, 220, 168, 122, 110, 137, 11, 19, 56, 57, 250, 88, 87, 130, 147, 242, 21, 231, 156, 105, 128, 9, 53, 23, 96, 44, 114, 216, 27, 190, 71, 253, 63, 60, 148, 21, 209, 133, 82, 24, 97, 125, 9, 125, 249, 78, 166, 164, 127, 98, 239, 76, 116, 162, 171, 209>>>>,
  <<"shake-128/1024", 2468624, <<155, 105, 115, 30, 50, 143, 36, 31, 235, 238, 181, 54, 216, 161, 37, 147, 62, 191, 134, 211, 85, 4, 246, 88, 182, 67, 29, 141, 185, 194, 118, 142, 170, 216, 251, 122, 215, 10, 0, 111, 144, 172, 50, 220, 142, 252, 158, 234, 134, 157, 182, 95, 115, 135, 217, 74, 250, 136, 62, 106, 108, 218, 158, 64, 7, 221, 198, 67, 55, 142, 105, 142, 237, 128, 19, 250, 234, 142, 19, 187, 2, 178, 47, 62, 250, 70, 212, 21, 215, 131, 115, 197, 0, 94, 28, 139, 29, 94, 52, 42, 193, 245, 197, 100, 60, 62, 17, 213, 200, 192, 185, 4, 67, 153, 174, 65, 180, 182, 109, 127, 72, 8, 200, 4, 183, 6, 38, 120>>>>,
  <<"shake-128/2048", 2097157, <<71, 224, 244, 121, 207, 14, 203, 52, 17, 195, 113, 108, 224, 243, 62, 101, 179, 224, 201, 6, 64, 198, 185, 205, 14, 243, 249, 228, 166, 240, 211, 126, 49, 41, 124, 203, 191, 103, 140, 228, 34, 154, 131, 23, 153, 101, 170, 249, 195, 123, 197, 79, 58, 177, 161, 151, 191, 237, 97, 225, 111, 175, 233, 169, 244, 221, 210, 178, 145, 141, 35, 15, 172, 53, 178, 116, 163, 100, 219, 49, 83, 122, 136, 147, 195, 246, 145, 250, 232, 38, 61, 59, 1, 36, 24, 113, 205, 78, 186, 112, 100, 217, 69, 86, 171, 251, 159, 209, 150, 190, 222, 173, 89, 172, 124, 105, 46, 221, 245, 219, 241, 162, 45, 31, 136, 94, 228, 127, 106, 93, 150, 244, 203, 188, 176, 69, 25, 247, 76, 222, 218, 105, 194, 35, 243, 171, 79, 204, 52, 227, 241, 169, 228, 141, 1, 210, 120, 75, 100, 175, 15, 81, 192, 116, 72, 43, 56, 95, 47, 98, 31, 106, 233, 104, 173, 195, 112, 231, 223, 33, 81, 152, 40, 152, 165, 39, 196, 101, 81, 67, 104, 136, 11, 96, 33, 229, 196, 1, 184, 3, 242, 92, 255, 174, 224, 136, 194, 25, 2, 41, 220, 170, 197, 37, 215, 96, 83, 205, 150, 233, 123, 89, 158, 183, 135, 37, 13, 186, 95, 149, 155, 230, 140, 207, 24, 177, 129, 112, 37, 101, 73, 223, 50, 141, 125, 63, 53, 208, 1, 210, 121, 215, 202, 9, 165, 253>>>>,
  <<"shake-128/2048", 2101246, <<217, 159, 229, 73, 15, 68, 19, 169, 124, 73, 158, 115, 155, 230, 44, 172, 90, 244, 223, 30, 225, 202, 44, 116, 173, 58, 235, 87, 169, 235, 126, 183, 74, 208, 5, 30, 79, 34, 244, 105, 20, 7, 121, 126, 49, 232, 135, 7, 244, 156, 244, 179, 240, 10, 46, 53, 46, 200, 229, 48, 193, 172, 8, 232, 143, 132, 145, 166, 84, 49, 213, 239, 53, 145, 138, 109, 223, 223, 59, 203, 194, 172, 157, 170, 72, 181, 49, 132, 160, 216, 242, 170, 155, 187, 219, 108, 71, 57, 1, 0, 49, 30, 209, 45, 44, 216, 48, 142, 75, 132, 176, 27, 139, 57, 89, 223, 188, 71, 205, 52, 115, 236, 183, 143, 220, 122, 228, 165, 156, 157, 14, 1, 252, 205, 212, 144, 98, 43, 67, 42, 29, 255, 226, 27, 118, 254, 153, 177, 82, 131, 231, 128, 195, 11, 123, 66, 213, 49, 79, 107, 111, 233, 191, 255, 138, 84, 222, 98, 141, 149, 115, 52, 127, 229, 182, 138, 48, 242, 238, 126, 214, 13, 139, 10, 103, 95, 84, 159, 164, 157, 119, 90, 51, 247, 97, 61, 228, 174, 196, 111, 8, 50, 30, 19, 137, 65, 155, 3, 212, 133, 164, 255, 190, 157, 144, 112, 207, 77, 216, 41, 27, 145, 172, 154, 103, 64, 172, 225, 206, 72, 46, 117, 172, 133, 88, 241, 211, 164, 169, 96, 237, 132, 219, 54, 84, 191, 76, 148, 111, 220, 27, 121, 112, 25, 160, 129>>>>,
  <<"shake-128/2048", 3029998, <<211, 133, 88, 156, 213, 240, 74, 23, 50, 111, 183, 79, 150, 236, 235, 46, 237, 4, 154, 57, 179, 1, 182, 24, 252, 28, 132, 177, 219, 94, 79, 99, 94, 68, 111, 70, 146, 225, 241, 220, 204, 123, 13, 92, 10, 2, 207, 240, 253, 195, 112, 73, 214, 205, 79, 14, 185, 206, 58, 170, 77, 236, 5, 218, 27, 72, 239, 180, 181, 155, 206, 30, 77, 56, 54, 158, 119, 117, 181, 8, 234, 174, 38, 90, 119, 203, 52, 42, 8, 109, 124, 192, 108, 32, 64, 32, 190, 7, 18, 112, 4, 63, 167, 202, 244, 40, 184, 153, 225, 32, 242, 100, 178, 145, 166, 54, 140, 56, 19, 79, 215, 246, 161, 22, 246, 75, 110, 20, 81, 164, 5, 58, 53, 205, 140, 90, 56, 115, 96, 25, 84, 145, 176, 58, 235, 73, 153, 61, 5, 19, 68, 248, 54, 127, 191, 3, 100, 247, 230, 91, 173, 39, 16, 122, 225, 107, 62, 216, 124, 106, 131, 99, 101, 239, 4, 80, 231, 199, 17, 101, 155, 61, 53, 224, 21, 107, 56, 254, 24, 118, 231, 110, 118, 23, 73, 139, 127, 69, 182, 98, 244, 42, 158, 41, 146, 204, 156, 42, 250, 122, 40, 231, 137, 213, 45, 223, 37, 197, 174, 82, 157, 4, 56, 225, 202, 174, 212, 18, 32, 67, 250, 217, 20, 247, 236, 133, 3, 72, 2, 200, 144, 182, 5, 251, 49, 122, 15, 93, 215, 98, 123, 14, 145, 193, 158, 220>>>>,
  <<"shake-256/32", 2097154, <<8, 243, 25, 204>>>>,
  <<"shake-256/32", 2101243, <<16, 169, 49, 24>>>>,
  <<"shake-256/32", 2607504, <<214, 86, 133, 51>>>>,
  <<"shake-256/64", 2097160, <<160, 163, 97, 139, 204, 139, 107, 160>>>>,
  <<"shake-256/64", 2101247, <<180, 172, 145, 36, 172, 217, 239, 22>>>>,
  <<"shake-256/64", 3519657, <<62, 57, 76, 240, 68, 25, 79, 181>>>>,
  <<"shake-256/128", 2097159, <<30, 213, 176, 10, 51, 52, 34, 6, 212, 199, 246, 44, 103, 115, 91, 208>>>>,
  <<"shake-256/128", 2101243, <<16, 169, 49, 24, 182, 65, 211, 106, 96, 232, 127, 4, 131, 5, 203, 6>>>>,
  <<"shake-256/128", 2639160, <<192, 152, 146, 216, 115, 166, 43, 249, 46, 101, 193, 102, 176, 46, 196, 36>>>>,
  <<"shake-256/256", 2097153, <<247, 61, 220, 200, 2, 101, 11, 61, 203, 110, 140, 232, 216, 197, 36, 207, 28, 174, 184, 105, 185, 160, 199, 68, 58, 224, 54, 217, 113, 55, 136, 94>>>>,
  <<"shake-256/256", 2101244, <<101, 174, 25, 182, 38, 166, 74, 0, 55, 153, 155, 235, 35, 65, 196, 253, 107, 37, 44, 151, 145, 129, 18, 213, 139, 97, 107, 141, 59, 77, 238, 222>>>>,
  <<"shake-256/256", 2556224, <<180, 255, 179, 223, 226, 56, 20, 140, 8, 185, 81, 163, 115, 8, 239, 187, 195, 183, 93, 196, 55, 95, 11, 112, 14, 111, 103, 248, 99, 53, 60, 215>>>>,
  <<"shake-256/512", 2097155, <<37, 30, 52, 96, 21, 160, 169, 216, 158, 10, 221, 141, 161, 107, 235, 222, 139, 16, 169, 21, 220, 85, 188, 129, 47, 159, 162, 254, 248, 111, 176, 102, 113, 96, 8, 16, 32, 60, 220, 247, 14, 84, 0, 9, 169, 164, 90, 37, 245, 83, 50, 63, 123, 200, 217, 92, 165, 37, 59, 236, 7, 183, 245, 224>>>>,
  <<"shake-256/512", 2101243, <<16, 169, 49, 24, 182, 65, 211, 106, 96, 232, 127, 4, 131, 5, 203, 6, 128, 241, 104, 208, 108, 200, 46, 74, 71, 43, 175, 162, 66, 172, 206, 46, 217, 171, 177, 246, 206, 98, 196, 241, 50, 149, 12, 45, 56, 141, 147, 165, 180, 86, 129, 130, 42, 204, 207, 146, 184, 44, 102, 103, 119, 101, 136, 134>>>>,
  <<"shake-256/512", 2308459, <<185, 187, 121, 200, 215, 177, 59, 255, 74, 77, 78, 240, 137, 254, 89, 45, 199, 182, 218, 44, 19, 124, 56, 155, 35, 29, 185, 121, 55, 240, 209, 148, 85, 16, 139, 174, 169, 80, 72, 66, 15, 229, 248, 177, 165, 175, 191, 67, 168, 25, 178, 20, 162, 56, 138, 202, 22, 111, 133, 207, 184, 146, 154, 86>>>>,
  <<"shake-256/1024", 2097155, <<37, 30, 52, 96, 21, 160, 169, 216, 158, 10, 221, 141, 161, 107, 235, 222, 139, 16, 169, 21, 220, 85, 188, 129, 47, 159, 162, 254, 248, 111, 176, 102, 113, 96, 8, 16, 32, 60, 220, 247, 14, 84, 0, 9, 169, 164, 90, 37, 245, 83, 50, 63, 123, 200, 217, 92, 165, 37, 59, 236, 7, 183, 245, 224, 71, 89, 73, 79, 243, 105, 88, 247, 29, 63, 159, 229, 95, 187, 170, 169, 111, 236, 175, 212, 40, 205, 59, 14, 207, 46, 120, 66, 188, 111, 33, 226, 170, 7, 160, 181, 85, 239, 141, 229, 102, 35, 7, 135, 11, 135, 238, 215, 183, 121, 35, 75, 65, 187, 224, 12, 145, 216, 46, 50, 142, 145, 166, 250>>>>,
  <<"shake-256/1024", 2101244, <<101, 174, 25, 182, 38, 166, 74, 0, 55, 153, 155, 235, 35, 65, 196, 253, 107, 37, 44, 151, 145, 129, 18, 213, 139, 97, 107, 141, 59, 77, 238, 222, 208, 181, 126, 103, 253, 149, 81, 94, 11, 159, 225, 127, 153, 90, 209, 167, 252, 243, 11, 8, 169, 190, 35, 61, 197, 249, 102, 94, 208, 202, 131, 167, 96, 24, 203, 247, 213, 217, 100, 244, 175, 230, 248, 243, 241, 124, 222, 206, 122, 59, 157, 54, 201, 0, 49, 123, 172, 78, 185, 231, 228, 16, 233, 28, 16, 154, 217, 115, 21, 170, 219, 93, 155, 209, 146, 67, 213, 180, 74, 75, 164, 199, 78, 93, 37, 113, 150, 79, 136, 5, 188, 61, 217, 8, 148, 181>>>>,
  <<"shake-256/1024", 3405742, <<143, 213, 90, 223, 174, 219, 191, 50, 242, 191, 62, 15, 126, 7, 123, 61, 177, 193, 39, 56, 49, 229, 153, 232, 237, 30, 32, 140, 138, 221, 40, 229, 194, 37, 81, 165, 232, 252, 28, 81, 148, 27, 9, 137, 17, 129, 117, 75, 41, 110, 62, 245, 118, 172, 129, 137, 224, 193, 96, 3, 205, 191, 21, 26, 164, 221, 92, 227, 37, 70, 126, 224, 187, 254, 197, 246, 234, 192, 188, 77, 99, 165, 251, 40, 161, 127, 227, 68, 36, 15, 82, 253, 29, 18, 255, 134, 217, 186, 238, 170, 113, 193, 91, 122, 40, 250, 21, 179, 176, 58, 51, 11, 214, 201, 244, 109, 239, 67, 176, 137, 181, 106, 248, 136, 62, 255, 51, 236>>>>,
  <<"shake-256/2048", 2097157, <<153, 10, 122, 158, 78, 3, 41, 27, 47, 111, 51, 199, 252, 169, 151, 104, 255, 131, 43, 238, 93, 56, 37, 125, 101, 151, 167, 96, 108, 116, 86, 97, 239, 89, 46, 112, 31, 24, 234, 214, 207, 10, 254, 111, 13, 102, 253, 55, 118, 198, 106, 195, 254, 57, 0, 64, 46, 182, 12, 11, 184, 192, 183, 37, 230, 134, 17, 131, 176, 149, 115, 79, 188, 97, 61, 49, 99, 89, 156, 141, 226, 92, 47, 168, 56, 137, 66, 74, 57, 81, 160, 232, 221, 149, 46, 59, 177, 57, 192, 170, 249, 196, 26, 165, 232, 36, 33, 102, 199, 240, 7, 67, 5, 48, 220, 213, 254, 60, 16, 66, 87, 64, 24, 25, 58, 219, 95, 74, 254, 92, 128, 174, 75, 114, 224, 53, 47, 252, 3, 242, 89, 100, 214, 186, 117, 209, 182, 14, 233, 134, 79, 189, 151, 171, 147, 73, 183, 247, 90, 136, 180, 46, 162, 101, 2, 246, 178, 155, 192, 244, 123, 42, 56, 58, 90, 226, 141, 76, 41, 227, 148, 164, 253, 204, 102, 47, 128, 84, 193, 90, 62, 45, 23, 240, 40, 17, 116, 77, 132, 28, 78, 94, 249, 189, 188, 80, 201, 126, 178, 193, 1, 47, 143, 86, 69, 151, 196, 167, 16, 233, 105, 13, 39, 100, 16, 66, 229, 141, 167, 122, 91, 94, 52, 44, 182, 213, 196, 198, 43, 114, 97, 123, 248, 195, 46, 178, 93, 7, 122, 14, 202, 59, 1, 78, 142, 193>>>>,
  <<"shake-256/2048", 2101244, <<101, 174, 25, 182, 38, 166, 74, 0, 55, 153, 155, 235, 35, 65, 196, 253, 107, 37, 44, 151, 145, 129, 18, 213, 139, 97, 107, 141, 59, 77, 238, 222, 208, 181, 126, 103, 253, 149, 81, 94, 11, 159, 225, 127, 153, 90, 209, 167, 252, 243, 11, 8, 169, 190, 35, 61, 197, 249, 102, 94, 208, 202, 131, 167, 96, 24, 203, 247, 213, 217, 100, 244, 175, 230, 248, 243, 241, 124, 222, 206, 122, 59, 157, 54, 201, 0, 49, 123, 172, 78, 185, 231, 228, 16, 233, 28, 16, 154, 217, 115, 21, 170, 219, 93, 155, 209, 146, 67, 213, 180, 74, 75, 164, 199, 78, 93, 37, 113, 150, 79, 136, 5, 188, 61, 217, 8, 148, 181, 230, 204, 229, 65, 4, 157, 155, 246, 8, 163, 39, 129, 178, 96, 110, 54, 119, 215, 54, 126, 196, 155, 224, 249, 150, 92, 75, 184, 173, 41, 116, 34, 64, 208, 142, 2, 189, 168, 29, 14, 19, 241, 39, 41, 207, 198, 244, 255, 154, 39, 15, 179, 54, 131, 206, 161, 55, 95, 179, 226, 252, 98, 88, 21, 29, 0, 170, 168, 83, 135, 102, 82, 66, 154, 133, 18, 112, 61, 229, 206, 8, 103, 115, 129, 75, 122, 124, 150, 194, 52, 77, 238, 32, 228, 208, 159, 139, 224, 144, 128, 215, 201, 37, 225, 149, 143, 196, 184, 212, 91, 238, 154, 133, 216, 221, 148, 127, 168, 178, 45, 102, 109, 187, 140, 202, 211, 25, 32>>>>,
  <<"shake-256/2048", 3313335, <<170, 248, 12, 74, 33, 35, 65, 162, 88, 85, 143, 255, 54, 27, 205, 250, 58, 189, 156, 170, 22, 79, 187, 20, 122, 205, 154, 94, 191, 113, 134, 251, 89, 224, 37, 94, 199, 222, 132, 100, 213, 80, 44, 76, 255, 14, 0, 215, 95, 40, 229, 77, 115, 134, 77, 191, 129, 126, 112, 194, 34, 150, 23, 173, 39, 54, 55, 101, 192, 86, 84, 121, 64, 231, 51, 226, 226, 139, 253, 145, 188, 214, 95, 117, 53, 178, 7, 166, 164, 157, 213, 224, 139, 225, 38, 107, 146, 94, 230, 238, 60, 228, 60, 24, 240, 227, 151, 169, 251, 137, 183, 40, 92, 115, 78, 23, 71, 127, 192, 2, 75, 14, 79, 156, 148, 16, 251, 241, 210, 117, 227, 203, 127, 185, 10, 232, 233, 80, 90, 21, 110, 160, 181, 190, 15, 163, 224, 217, 173, 97, 59, 165, 117, 205, 146, 219, 13, 30, 234, 87, 250, 96, 235, 35, 204, 96, 234, 206, 39, 67, 175, 233, 239, 106, 135, 50, 178, 20, 150, 169, 96, 153, 231, 83, 71, 221, 42, 40, 162, 215, 90, 181, 45, 73, 115, 229, 124, 240, 34, 223, 247, 188, 195, 174, 74, 246, 221, 232, 51, 79, 53, 188, 28, 220, 216, 45, 142, 244, 254, 206, 158, 165, 86, 225, 160, 193, 186, 56, 14, 229, 45, 121, 71, 56, 97, 10, 54, 211, 84, 86, 198, 48, 104, 178, 98, 222, 194, 99, 126, 79, 105, 115, 198, 72, 102, 223>>>>,
  <<"xxhash64", 2097160, <<226, 12, 135, 125, 44, 128, 161, 5>>>>,
  <<"xxhash64", 2101245, <<47, 118, 161, 226, 224, 215, 63, 90>>>>,
  <<"xxhash64", 3231805, <<4, 75, 242, 210, 161, 132, 28, 33>>>>,
  <<"xxhash32", 2097158, <<215, 18, 20, 144>>>>,
  <<"xxhash32", 2101247, <<170, 215, 185, 173>>>>,
  <<"xxhash32", 3147610, <<131, 157, 93, 46>>>>,
  <<"sha-224", 4194305, <<213, 109, 83, 207, 70, 168, 28, 228, 121, 238, 44, 197, 247, 213, 209, 205, 255, 70, 234, 68, 208, 42, 12, 56, 180, 35, 220, 75>>>>,
  <<"sha-224", 4198399, <<205, 136, 111, 227, 25, 43, 138, 236, 26, 246, 72, 89, 18, 237, 156, 87, 207, 210, 124, 70, 42, 250, 17, 89, 244, 175, 63, 57>>>>,
  <<"sha-224", 4348938, <<82, 108, 109, 211, 200, 105, 193, 213, 13, 36, 224, 94, 129, 37, 25, 64, 62, 87, 7, 6, 127, 26, 41, 40, 97, 43, 89, 40>>>>,
  <<"sha-256", 4194308, <<110, 28, 114, 21, 76, 127, 67, 69, 141, 29, 224, 184, 224, 31, 19, 217, 129, 157, 198, 243, 144, 108, 17, 47, 110, 33, 130, 127, 146, 106, 66, 139>>>>,
  <<"sha-256", 4198392, <<160, 200, 63, 156, 161, 251, 113, 235, 107, 65, 164, 155, 180, 250, 142, 31, 249, 21, 197, 56, 112, 118, 247, 184, 213, 245, 135, 149, 124, 33, 129, 212>>>>,
  <<"sha-256", 6255213, <<57, 18, 151, 228, 52, 133, 202, 123, 58, 31, 251, 106, 211, 253, 178, 85, 54, 160, 207, 1, 9, 70, 209, 44, 79, 190, 165, 140, 73, 201, 251, 199>>>>,
  <<"sha-384", 4194312, <<29, 233, 148, 163, 15, 102, 72, 169, 161, 83, 25, 218, 147, 243, 106, 106, 222, 22, 211, 176, 33, 162, 3, 232, 43, 4, 47, 43, 165, 236, 41, 115, 19, 100, 62, 199, 47, 15, 199, 4, 204, 171, 73, 115, 173, 35, 119, 224>>>>,
  <<"sha-384", 4198398, <<209, 202, 30, 170, 50, 19, 190, 242, 237, 241, 137, 81, 90, 185, 130, 197, 160, 248, 141, 232, 242, 192, 130, 226, 211, 222, 151, 148, 116, 130, 131, 138, 57, 176, 209, 91, 11, 25, 192, 133, 110, 32, 126, 117, 124, 125, 115, 34>>>>,
  <<"sha-384", 7819672, <<93, 137, 41, 168, 170, 142, 111, 245, 45, 187, 188, 119, 6, 207, 255, 195, 224, 213, 254, 27, 132, 160, 200, 189, 90, 75, 79, 208, 20, 204, 207, 200, 92, 254, 241, 194, 188, 242, 197, 85, 90, 11, 211, 1, 245, 73, 108, 186>>>>,
  <<"sha-512", 4194312, <<200, 45, 99, 161, 82, 255, 51, 204, 21, 127, 212, 99, 112, 108, 100, 212, 180, 62, 213, 63, 118, 128, 40, 112, 17, 242, 84, 13, 185, 229, 120, 0, 89, 171, 189, 102, 234, 64, 146, 227, 69, 113, 199, 13, 102, 255, 173, 210, 31, 217, 220, 154, 174, 160, 19, 247, 147, 86, 141, 25, 187, 26, 142, 234>>>>,
  <<"sha-512", 4198393, <<1, 136, 143, 12, 237, 211, 46, 160, 80, 50, 240, 118, 239, 180, 238, 101, 62, 91, 56, 117, 166, 57, 119, 37, 216, 172, 188, 53, 190, 133, 190, 36, 101, 181, 116, 165, 99, 148, 58, 114, 115, 28, 161, 179, 254, 56, 241, 132, 152, 245, 64, 192, 79, 237, 4, 128, 46, 188, 89, 59, 22, 16, 143, 185>>>>,
  <<"sha-512", 6776175, <<43, 157, 51, 228, 49, 59, 41, 92, 117, 242, 130, 149, 142, 246, 137, 71, 2, 17, 177, 82, 83, 36, 40, 131, 75, 172, 250, 17, 253, 82, 185, 31, 42, 67, 11, 173, 149, 32, 161, 38, 126, 57, 2, 117, 222, 16, 41, 154, 139, 238, 230, 18, 222, 101, 49, 211, 60, 170, 190, 104, 186, 187, 247, 16>>>>,
  <<"sha-512/224", 4194308, <<156, 79, 249, 235, 53, 78, 250, 243, 172, 87, 145, 248, 62, 25, 13, 144, 131, 240, 186, 122, 117, 214, 45, 166, 61, 232, 47, 204>>>>,
  <<"sha-512/224", 4198396, <<175, 29, 5, 85, 80, 106, 163, 93, 116, 212, 233, 240, 248, 177, 92, 207, 72, 66, 155, 93, 4, 111, 62, 200, 109, 65, 192, 163>>>>,
  <<"sha-512/224", 7069118, <<42, 68, 221, 139, 159, 122, 235, 183, 190, 187, 90, 0, 142, 254, 42, 180, 218, 208, 159, 115, 84, 191, 147, 235, 62, 219, 135, 40>>>>,
  <<"sha-512/256", 4194308, <<140, 222, 211, 240, 222, 122, 25, 1, 73, 106, 180, 60, 78, 132, 133, 177, 64, 92, 184, 13, 21, 206, 28, 222, 37, 34, 139, 154, 55, 166, 88, 112>>>>,
  <<"sha-512/256", 4198397, <<0, 81, 4, 153, 175, 240, 15, 20, 172, 24, 167, 85, 118, 71, 64, 226, 239, 194, 243, 107, 254, 126, 85, 69, 77, 19, 12, 66, 163, 56, 122, 246>>>>,
  <<"sha-512/256", 7589154, <<21, 35, 201, 48, 82, 214, 69, 219, 249, 182, 214, 249, 230, 56, 177, 113, 234, 52, 67, 30, 64, 49, 210, 44, 208, 110, 25, 155, 34, 188, 180, 58>>>>,
  <<"sha3-224", 4194310, <<137, 241, 195, 47, 82, 30, 21, 230, 203, 141, 90, 47, 13, 154, 9, 92, 39, 193, 98, 231, 107, 191, 51, 116, 0, 1, 39, 13>>>>,
  <<"sha3-224", 4198399, <<215, 106, 246, 243, 111, 226, 29, 35, 31, 61, 52, 19, 9, 255, 170, 42, 22, 113, 102, 85, 66, 237, 51, 190, 177, 22, 58, 16>>>>,
  <<"sha3-224", 5283301, <<191, 205, 108, 102, 144, 21, 83, 134, 16, 44, 214, 83, 31, 98, 80, 25, 23, 203, 34, 225, 43, 31, 39, 149, 141, 104, 208, 67>>>>,
  <<"sha3-256", 4194305, <<22, 94, 31, 81, 181, 63, 222, 11, 68, 225, 225, 191, 152, 150, 71, 221, 210, 122, 150, 255, 12, 58, 109, 23, 80, 254, 58, 32, 209, 82, 184, 129>>>>,
  <<"sha3-256", 4198398, <<36, 66, 134, 144, 194, 75, 43, 106, 243, 124, 50, 115, 193, 181, 125, 75, 182, 9, 218, 56, 189, 90, 15, 195, 232, 62, 177, 20, 141, 206, 10, 142>>>>,
  <<"sha3-256", 6338380, <<43, 113, 234, 185, 101, 161, 151, 147, 76, 172, 226, 78, 118, 195, 95, 96, 67, 118, 130, 113, 247, 247, 67, 89, 1, 153, 77, 107, 238, 117, 48, 192>>>>,
  <<"sha3-384", 4194311, <<194, 61, 55, 190, 178, 0, 131, 190, 110, 102, 114, 13, 6, 120, 135, 158, 44, 40, 199, 1, 235, 231, 43, 43, 19, 85, 76, 26, 103, 42, 200, 18, 126, 40, 97, 150, 76, 172, 95, 178, 3, 74, 14, 226, 101, 139, 202, 208>>>>,
  <<"sha3-384", 4198397, <<43, 85, 146, 138, 119, 110, 25, 199, 79, 248, 81, 28, 230, 194, 135, 205, 235, 111, 214, 231, 181, 93, 109, 45, 198, 8, 29, 81, 7, 142, 232, 162, 234, 57, 52, 77, 4, 95, 20, 168, 205, 218, 225, 225, 236, 171, 83, 205>>>>,
  <<"sha3-384", 4659042, <<1, 145, 35, 250, 203, 162, 152, 188, 105, 97, 28, 84, 212, 137, 198, 242, 180, 164, 143, 26, 234, 104, 202, 22, 92, 170, 97, 197, 172, 43, 154, 158, 239, 252, 130, 60, 18, 46, 198, 240, 44, 15, 172, 109, 106, 112, 253, 129>>>>,
  <<"sha3-512", 4194306, <<156, 240, 113, 120, 71, 211, 225, 140, 192, 28, 163, 11, 52, 120, 29, 141, 99, 71, 122, 117, 170, 230, 120, 128, 146, 248, 21, 112, 32, 86, 187, 94, 119, 143, 73, 249, 162, 99, 148, 23, 152, 172, 28, 4, 10, 193, 151, 172, 184, 240, 65, 124, 250, 49, 99, 248, 170, 236, 143, 214, 166, 41, 223, 83>>>>,
  <<"sha3-512", 4198393, <<67, 2, 94, 170, 231, 224, 235, 253, 232, 176, 57, 152, 23, 105, 105, 232, 62, 177, 117, 248, 33, 153, 195, 115, 217, 159, 141, 89, 49, 240, 41, 106, 149, 174, 84, 176, 53, 77, 12, 81, 176, 91, 114, 13, 56, 33, 107, 228, 81, 175, 71, 44, 218, 109, 251, 131, 192, 133, 58, 125, 77, 242, 32, 20>>>>,
  <<"sha3-512", 6559331, <<188, 107, 88, 140, 13, 123, 9, 220, 232, 215, 253, 48, 99, 121, 231, 84, 23, 206, 137, 208, 55, 86, 34, 147, 123, 209, 231, 94, 71, 63, 203, 145, 245, 80, 184, 237, 156, 214, 192, 22, 51, 201, 146, 1, 56, 8, 142, 150, 251, 118, 108, 132, 239, 245, 65, 33, 97, 142, 80, 149, 187, 235, 190, 35>>>>,
  <<"shake-128/32", 4194308, <<14, 149, 71, 138>>>>,
  <<"shake-128/32", 4198395, <<5, 141, 18, 178>>>>,
  <<"shake-128/32", 4573783, <<18, 75, 34, 35>>>>,
  <<"shake-128/64", 4194312, <<103, 189, 54, 148, 1, 91, 176, 24>>>>,
  <<"shake-128/64", 4198397, <<118, 248, 195, 54, 41, 243, 33, 162>>>>,
  <<"shake-128/64", 5515786, <<215, 209, 46, 213, 97, 178, 15, 108>>>>,
  <<"shake-128/128", 4194309, <<6, 114, 121, 208, 38, 63, 195, 242, 196, 48, 81, 101, 180, 3, 79, 100>>>>,
  <<"shake-128/128", 4198392, <<147, 142, 80, 120, 209, 38, 233, 169, 4, 120, 17, 135, 16, 146, 9, 20>>>>,
  <<"shake-128/128", 4224693, <<58, 215, 52, 37, 189, 220, 175, 191, 37, 171, 217, 127, 178, 2, 69, 239>>>>,
  <<"shake-128/256", 4194309, <<6, 114, 121, 208, 38, 63, 195, 242, 196, 48, 81, 101, 180, 3, 79, 100, 34, 180, 108, 19, 47, 9, 88, 135, 68, 36, 28, 204, 140, 196, 237, 181>>>>,
  <<"shake-128/256", 4198394, <<193, 70, 153, 101, 104, 144, 131, 24, 230, 232, 160, 123, 161, 6, 27, 104, 234, 128, 62, 166, 132, 63, 6, 109, 20, 81, 240, 23, 109, 114, 233, 58>>>>,
  <<"shake-128/256", 6953536, <<27, 198, 96, 239, 200, 199, 183, 112, 240, 146, 120, 107, 188, 92, 12, 223, 235, 149, 36, 123, 109, 134, 82, 141, 208, 190, 22, 60, 225, 29, 207, 235>>>>,
  <<"shake-128/512", 4194310, <<213, 22, 55, 107, 92, 151, 32, 22, 31, 254, 101, 147, 38, 34, 44, 137, 79, 86, 58, 224, 174, 68, 72, 58, 148, 232, 211, 201, 74, 91, 12, 222, 170, 100, 108, 138, 94, 170, 63, 213, 123, 148, 177, 89, 182, 85, 237, 245, 24, 159, 85, 105, 159, 98, 231, 196, 45, 101, 241, 236, 99, 85, 227, 219>>>>,
  <<"shake-128/512", 4198396, <<167, 48, 184, 148, 142, 210, 109, 198, 254, 107, 122, 8, 171, 165, 252, 24, 212, 60, 4, 136, 164, 64, 77, 83, 250, 30, 198, 179, 188, 7, 149, 255, 97, 237, 25, 192, 201, 253, 151, 66, 30, 119, 225, 35, 11, 22, 232, 37, 144, 28, 2, 237, 127, 228, 183, 186, 17, 135, 179, 25, 227, 187, 147, 67>>>>,
  <<"shake-128/512", 4483264, <<142, 201, 112, 117, 182, 144, 231, 6, 72, 5, 22, 4, 136, 72, 77, 2, 6, 234, 25, 118, 40, 75, 201, 78, 185, 9, 106, 82, 53, 254, 244, 69, 72, 77, 204, 236, 69, 85, 176, 48, 37, 77, 167, 238, 73, 249, 146, 192, 139, 207, 228, 88, 77, 122, 220, 226, 146, 119, 60, 144, 20, 161, 81, 200>>>>,
  <<"shake-128/1024", 4194309, <<6, 114, 121, 208, 38, 63, 195, 242, 196, 48, 81, 101, 180, 3, 79, 100, 34, 180, 108, 19, 47, 9, 88, 135, 68, 36, 28, 204, 140, 196, 237, 181, 136, 171, 51, 20, 249, 97, 217, 79, 252, 89, 159, 16, 166, 186, 208, 176, 10, 171, 23, 25, 180, 115, 121, 31, 169, 52, 20, 242, 54, 71, 23, 194, 0, 189, 22, 244, 105, 129, 129, 143, 24, 136, 215, 203, 202, 93, 71, 171, 208, 224, 152, 1, 137, 105, 163, 168, 1, 8, 216, 157, 9, 160, 76, 186, 164, 81, 111, 240, 4, 101, 157, 24, 37, 176, 179, 17, 179, 122, 208, 123, 40, 186, 58, 5, 26, 29, 14, 31, 159, 30, 23, 122, 208, 196, 162, 222>>>>,
  <<"shake-128/1024", 4198396, <<167, 48, 184, 148, 142, 210, 109, 198, 254, 107, 122, 8, 171, 165, 252, 24, 212, 60, 4, 136, 164, 64, 77, 83, 250, 30, 198, 179, 188, 7, 149, 255, 97, 237, 25, 192, 201, 253, 151, 66, 30, 119, 225, 35, 11, 22, 232, 37, 144, 28, 2, 237, 127, 228, 183, 186, 17, 135, 179, 25, 227, 187, 147, 67, 79, 45, 181, 120, 236, 191, 151, 36, 109, 184, 134, 125, 253, 35, 68, 197, 65, 239, 103, 113, 243, 16, 7, 90, 182, 127, 79, 3, 61, 9, 232, 93, 89, 220, 216, 79, 70, 230, 192, 76, 20, 132, 152, 209, 115, 146, 182, 113, 113, 167, 244, 34, 199, 81, 165, 136, 119, 36, 0, 237, 12, 18, 39, 108>>>>,
  <<"shake-128/1024", 7185546, <<4, 103, 244, 254, 142, 94, 110, 130, 172, 86, 173, 66, 5, 159, 242, 198, 189, 170, 189, 9, 101, 168, 150, 227, 74, 12, 113, 146, 246, 135, 247, 180, 8, 249, 67, 118, 176, 248, 145, 160, 71, 142, 10, 1, 51, 54, 73, 162, 102, 76, 111, 228, 17, 203, 146, 13, 215, 67, 101, 97, 11, 140, 126, 241, 96, 223, 188, 68, 46, 163, 55, 78, 58, 23, 65, 48, 115, 167, 83, 30, 224, 65, 14, 50, 122, 131, 8, 38, 6, 166, 80, 186, 56, 27, 36, 61, 60, 103, 67, 38, 100, 145, 103, 201, 55, 143, 73, 140, 45, 31, 32, 142, 150, 25, 138, 43, 49, 216, 127, 39, 218, 123, 196, 198, 92, 220, 151, 208>>>>,
  <<"shake-128/2048", 4194307, <<213, 252, 188, 246, 128, 3, 167, 185, 133, 23, 226, 85, 13, 169, 205, 243, 252, 57, 123, 157, 166, 71, 25, 58, 236, 181, 243, 139, 100, 55, 41, 238, 134, 121, 37, 31, 154, 190, 177, 124, 234, 96, 231, 243, 109, 103, 111, 108, 37, 202, 194, 37, 139, 193, 212, 164, 221, 169, 234, 93, 74, 37, 198, 10, 63, 36, 45, 212, 112, 65, 176, 45, 203, 187, 181, 129, 99, 15, 179, 174, 192, 25, 221, 156, 15, 224, 53, 20, 206, 187, 112, 41, 54, 154, 224, 255, 1, 242, 125, 71, 96, 158, 149, 3, 12, 255, 230, 214, 5, 112, 102, 83, 26, 102, 120, 111, 253, 177, 170, 209, 34, 99, 190, 62, 126, 180, 197, 34, 101, 147, 11, 174, 161, 181, 52, 241, 168, 237, 62, 73, 102, 180, 87, 159, 141, 45, 58, 129, 52, 138, 93, 8, 254, 47, 87, 175, 36, 2, 13, 209, 120, 64, 149, 201, 206, 195, 114, 155, 1, 143, 11, 188, 76, 0, 39, 233, 60, 19, 211, 120, 38, 105, 177, 47, 39, 187, 199, 125, 17, 147, 37, 64, 3, 79, 137, 66, 234, 15, 113, 105, 208, 194, 107, 166, 231, 16, 74, 215, 107, 150, 76, 181, 33, 242, 58, 32, 35, 234, 222, 53, 22, 120, 107, 35, 112, 4, 194, 248, 15, 96, 100, 69, 178, 71, 195, 151, 134, 150, 161, 70, 173, 196, 143, 217, 243, 37, 228, 164, 238, 86, 102, 80, 16, 34, 83, 207>>>>,
  <<"shake-128/2048", 4198399, <<201, 89, 254, 204, 120, 159, 53, 151, 155, 39, 186, 48, 167, 24, 110, 205, 193, 165, 121, 207, 232, 53, 241, 152, 179, 147, 12, 43, 171, 44, 187, 183, 101, 56, 29, 169, 104, 10, 76, 85, 131, 61, 227, 131, 94, 93, 227, 213, 55, 135, 131, 216, 42, 206, 154, 208, 24, 15, 3, 147, 15, 13, 20, 105, 100, 10, 1, 153, 24, 242, 234, 148, 53, 12, 238, 198, 80, 167, 142, 198, 60, 70, 125, 11, 22, 74, 9, 124, 7, 198, 24, 97, 48, 240, 60, 97, 94, 86, 239, 140, 6, 160, 0, 249, 153, 169, 0, 238, 126, 203, 106, 66, 149, 255, 49, 177, 115, 73, 115, 220, 166, 220, 108, 54, 104, 212, 31, 45, 108, 184, 61, 210, 192, 122, 140, 14, 173, 196, 214, 146, 170, 179, 155, 176, 127, 173, 106, 54, 38, 210, 232, 254, 147, 149, 37, 136, 158, 54, 171, 194, 93, 214, 204, 158, 83, 190, 31, 21, 35, 77, 12, 202, 188, 207, 143, 247, 120, 12, 34, 37, 59, 105, 87, 233, 10, 134, 154, 166, 248, 160, 179, 174, 249, 169, 8, 183, 176, 170, 72, 139, 42, 227, 105, 70, 227, 90, 22, 61, 167, 115, 203, 132, 141, 137, 99, 135, 80, 25, 97, 219, 95, 208, 24, 187, 235, 220, 171, 209, 13, 195, 35, 67, 236, 6, 63, 94, 214, 240, 209, 72, 181, 144, 51, 29, 32, 206, 97, 96, 75, 94, 63, 30, 220, 21, 3, 23>>>>,
  <<"shake-128/2048", 7007279, <<98, 68, 52, 52, 230, 133, 95, 221, 41, 43, 206, 130, 70, 71, 8, 131, 136, 68, 217, 6, 112, 241, 249, 135, 112, 88, 239, 172, 241, 156, 69, 106, 141, 152, 82, 148, 149, 152, 30, 252, 15, 246, 108, 34, 20, 32, 0, 131, 135, 26, 253, 253, 46, 212, 194, 127, 255, 41, 56, 233, 132, 69, 129, 167, 177, 65, 56, 156, 39, 220, 187, 17, 239, 15, 177, 224, 66, 92, 73, 126, 122, 31, 70, 145, 150, 151, 251, 111, 195, 234, 96, 157, 195, 102, 0, 194, 184, 112, 162, 71, 92, 85, 78, 230, 121, 119, 41, 89, 155, 27, 195, 182, 73, 76, 193, 75, 169, 239, 121, 163, 76, 65, 144, 124, 217, 234, 235, 37, 165, 122, 2, 228, 79, 69, 113, 60, 101, 241, 24, 78, 4, 65, 101, 110, 47, 65, 28, 20, 169, 151, 89, 9, 170, 45, 227, 37, 143, 34, 246, 52, 144, 69, 218, 192, 236, 88, 151, 132, 39, 144, 1, 27, 238, 1, 72, 233, 131, 4, 180, 167, 115, 195, 127, 82, 36, 205, 58, 162, 222, 67, 91, 219, 14, 68, 223, 227, 110, 60, 31, 227, 80, 104, 140, 200, 247, 87, 110, 219, 21, 112, 15, 149, 187, 252, 74, 226, 172, 114, 37, 15, 178, 220, 159, 123, 145, 114, 5, 2, 244, 98, 40, 217, 2, 221, 187, 43, 134, 80, 155, 66, 232, 217, 15, 87, 202, 70, 9, 88, 141, 6, 151, 12, 192, 213, 254, 133>>>>,
  <<"shake-256/32", 4194311, <<109, 34, 4, 67>>>>,
  <<"shake-256/32", 4198398, <<226, 123, 28, 133>>>>,
  <<"shake-256/32", 8175903, <<28, 109, 57, 11>>>>,
  <<"shake-256/64", 4194309, <<154, 42, 252, 7, 118, 179, 14, 115>>>>,
  <<"shake-256/64", 4198396, <<242, 67, 225, 43, 127, 55, 14, 39>>>>,
  <<"shake-256/64", 6276183, <<26, 217, 141, 161, 160, 50, 150, 193>>>>,
  <<"shake-256/128", 4194305, <<187, 203, 49, 2, 214, 73, 230, 16, 85, 130, 20, 82, 41, 222, 233, 102>>>>,
  <<"shake-256/128", 4198398, <<226, 123, 28, 133, 68, 245, 124, 120, 148, 42, 165, 19, 26, 185, 137, 42>>>>,
  <<"shake-256/128", 6410311, <<248, 68, 132, 241, 160, 92, 32, 134, 134, 128, 240, 86, 4, 240, 172, 247>>>>,
  <<"shake-256/256", 4194306, <<57, 19, 32, 55, 112, 46, 233, 131, 139, 167, 2, 225, 189, 34, 154, 33, 242, 185, 48, 101, 207, 90, 98, 52, 54, 113, 247, 60, 16, 199, 161, 128>>>>,
  <<"shake-256/256", 4198397, <<60, 232, 12, 222, 17, 44, 148, 247, 31, 168, 23, 208, 228, 166, 164, 147, 160, 155, 15, 28, 139, 189, 141, 242, 114, 134, 235, 177, 157, 64, 31, 25>>>>,
  <<"shake-256/256", 7545646, <<218, 80, 100, 205, 4, 179, 28, 64, 212, 66, 55, 129, 162, 212, 38, 148, 181, 106, 154, 210, 146, 92, 179, 47, 249, 196, 148, 80, 17, 119, 90, 7>>>>,
  <<"shake-256/512", 4194305, <<187, 203, 49, 2, 214, 73, 230, 16, 85, 130, 20, 82, 41, 222, 233, 102, 33, 66, 186, 176, 34, 215, 239, 20, 83, 117, 147, 6, 106, 238, 179, 38, 5, 32, 7, 179, 70, 233, 250, 234, 8, 243, 132, 198, 77, 36, 64, 52, 161, 247, 239, 112, 198, 84, 194, 247, 133, 224, 241, 96, 88, 38, 149, 94>>>>,
  <<"shake-256/512", 4198393, <<17, 18, 160, 192, 119, 112, 57, 147, 140, 174, 116, 90, 86, 127, 105, 24, 57, 176, 116, 18, 105, 25, 39, 3, 206, 35, 21, 117, 183, 101, 245, 183, 39, 240, 142, 118, 66, 146, 52, 239, 251, 117, 97, 82, 63, 97, 79, 142, 140, 102, 66, 117, 17, 211, 239, 219, 94, 255, 245, 231, 93, 39, 221, 36>>>>,
  <<"shake-256/512", 4382998, <<44, 17, 66, 163, 175, 36, 198, 96, 87, 102, 188, 212, 102, 129, 55, 190, 90, 4, 236, 224, 26, 7, 117, 115, 246, 51, 0, 60, 1, 237, 142, 20, 197, 157, 167, 115, 251, 46, 24, 132, 226, 219, 25, 168, 242, 59, 136, 15, 90, 213, 182, 159, 86, 34, 58, 159, 24, 204, 117, 206, 29, 222, 61, 15>>>>,
  <<"shake-256/1024", 4194309, <<154, 42, 252, 7, 118, 179, 14, 115, 177, 122, 0, 96, 248, 170, 70, 132, 24, 181, 5, 10, 48, 88, 197, 119, 205, 89, 93, 247, 97, 94, 126, 183, 248, 142, 137, 17, 69, 248, 235, 103, 51, 126, 191, 96, 205, 38, 78, 242, 181, 148, 175, 216, 74, 152, 64, 82, 26, 230, 252, 150, 7, 25, 158, 88, 7, 190, 169, 124, 13, 45, 115, 100, 120, 123, 52, 189, 224, 190, 244, 194, 202, 53, 196, 100, 2, 242, 117, 81, 94, 129, 234, 153, 8, 0, 102, 221, 92, 195, 217, 198, 68, 246, 98, 104, 195, 225, 177, 239, 200, 92, 94, 152, 173, 36, 205, 121, 92, 122, 103, 98, 179, 90, 176, 237, 172, 222, 116, 45>>>>,
  <<"shake-256/1024", 4198395, <<175, 215, 231, 79, 139, 71, 107, 165, 239, 97, 221, 180, 7, 118, 246, 193, 214, 249, 131, 5, 208, 50, 150, 71, 165, 89, 223, 68, 174, 116, 245, 124, 175, 248, 21, 132, 172, 199, 200, 211, 176, 172, 148, 182, 185, 241, 70, 162, 207, 80, 137, 64, 124, 92, 128, 34, 43, 137, 237, 213, 124, 62, 195, 228, 86, 115, 229, 179, 34, 122, 161, 104, 88, 65, 39, 198, 226, 127, 23, 157, 72, 144, 68, 4, 251, 66, 197, 184, 107, 18, 169, 105, 65, 172, 101, 71, 169, 99, 204, 118, 78, 205, 73, 194, 151, 113, 37, 196, 61, 142, 92, 163, 145, 179, 53, 238, 227, 224, 23, 237, 149, 24, 244, 219, 100, 149, 28, 254>>>>,
  <<"shake-256/1024", 6147252, <<169, 191, 234, 184, 39, 37, 131, 240, 135, 157, 100, 110, 58, 254, 114, 250, 232, 132, 3, 95, 140, 41, 177, 80, 7, 245, 187, 98, 246, 171, 68, 42, 187, 178, 102, 183, 122, 44, 239, 85, 226, 36, 56, 192, 169, 165, 171, 122, 146, 56, 122, 15, 239, 237, 228, 230, 133, 173, 229, 35, 235, 114, 108, 190, 171, 164, 170, 7, 5, 252, 164, 97, 53, 202, 198, 122, 108, 128, 131, 160, 159, 133, 164, 40, 156, 66, 186, 161, 54, 7, 175, 92, 90, 237, 219, 95, 244, 99, 206, 137, 234, 156, 207, 195, 86, 52, 34, 143, 18, 97, 113, 123, 130, 176, 5, 108, 20, 209, 183, 45, 107, 178, 147, 89, 17, 84, 109, 84>>>>,
  <<"shake-256/2048", 4194306, <<57, 19, 32, 55, 112, 46, 233, 131, 139, 167, 2, 225, 189, 34, 154, 33, 242, 185, 48, 101, 207, 90, 98, 52, 54, 113, 247, 60, 16, 199, 161, 128, 169, 28, 9, 222, 163, 130, 143, 123, 196, 1, 110, 3, 26, 147, 15, 70, 111, 251, 95, 232, 49, 86, 183, 110, 204, 213, 0, 228, 147, 141, 233, 220, 37, 99, 113, 240, 206, 178, 68, 140, 150, 177, 12, 126, 62, 0, 132, 155, 20, 88, 237, 161, 62, 58, 225, 161, 83, 124, 91, 147, 254, 124, 160, 45, 123, 238, 16, 151, 180, 125, 133, 223, 212, 62, 100, 78, 230, 24, 13, 44, 156, 249, 208, 235, 110, 199, 28, 2, 91, 243, 46, 94, 151, 152, 17, 110, 123, 137, 233, 18, 81, 108, 11, 84, 86, 218, 229, 24, 163, 206, 32, 167, 62, 246, 150, 160, 73, 15, 136, 174, 234, 160, 37, 88, 0, 35, 31, 153, 157, 218, 35, 87, 160, 6, 82, 163, 209, 141, 88, 58, 218, 91, 115, 252, 111, 103, 210, 156, 64, 74, 31, 182, 178, 6, 97, 93, 255, 82, 172, 137, 50, 50, 64, 224, 3, 167, 135, 17, 76, 105, 136, 190, 77, 216, 54, 138, 245, 34, 161, 62, 175, 151, 24, 39, 233, 234, 16, 142, 238, 235, 169, 126, 180, 70, 44, 221, 172, 48, 249, 120, 62, 67, 92, 118, 147, 44, 127, 228, 28, 76, 209, 134, 222, 235, 127, 28, 56, 90, 56, 195, 15, 100, 239, 171>>>>,
  <<"shake-256/2048", 4198397, <<60, 232, 12, 222, 17, 44, 148, 247, 31, 168, 23, 208, 228, 166, 164, 147, 160, 155, 15, 28, 139, 189, 141, 242, 114, 134, 235, 177, 157, 64, 31, 25, 223, 209, 4, 235, 93, 45, 223, 188, 209, 128, 93, 181, 169, 82, 250, 179, 167, 179, 153, 124, 85, 19, 79, 46, 124, 9, 13, 43, 56, 100, 149, 112, 81, 87, 99, 7, 247, 107, 116, 63, 115, 219, 209, 118, 74, 114, 119, 97, 145, 56, 100, 205, 234, 231, 17, 148, 99, 68, 168, 37, 228, 78, 167, 80, 98, 119, 192, 255, 46, 156, 98, 45, 209, 140, 236, 138, 18, 61, 217, 211, 149, 183, 136, 37, 11, 53, 56, 189, 218, 191, 170, 54, 3, 218, 132, 136, 55, 76, 197, 195, 227, 100, 154, 209, 66, 233, 40, 82, 223, 90, 226, 235, 220, 19, 14, 82, 154, 16, 14, 195, 6, 181, 33, 242, 247, 179, 227, 166, 28, 139, 219, 63, 155, 90, 179, 55, 19, 152, 220, 197, 96, 194, 112, 188, 200, 195, 97, 236, 229, 65, 210, 175, 57, 239, 154, 164, 221, 42, 98, 252, 168, 162, 225, 187, 17, 60, 176, 22, 39, 245, 229, 37, 106, 225, 31, 24, 36, 165, 48, 123, 179, 211, 103, 183, 45, 222, 5, 18, 28, 105, 179, 68, 206, 225, 94, 10, 249, 176, 36, 103, 73, 29, 184, 89, 138, 250, 140, 212, 214, 233, 177, 210, 153, 83, 23, 17, 11, 235, 233, 151, 209, 118, 129, 233>>>>,
  <<"shake-256/2048", 7461804, <<120, 148, 75, 78, 150, 43, 153, 105, 74, 26, 217, 51, 63, 31, 86, 133, 226, 107, 5, 24, 27, 202, 49, 104, 60, 7, 241, 165, 37, 34, 20, 164, 162, 112, 79, 117, 151, 185, 151, 214, 92, 184, 98, 108, 173, 205, 121, 66, 212, 144, 219, 234, 100, 59, 145, 90, 106, 79, 63, 199, 141, 166, 254, 96, 58, 111, 21, 101, 12, 61, 40, 196, 213, 249, 93, 66, 171, 193, 156, 248, 237, 153, 192, 94, 86, 207, 89, 5, 111, 7, 250, 171, 236, 4, 68, 129, 160, 0, 17, 122, 114, 12, 1, 114, 94, 189, 125, 177, 59, 239, 71, 77, 49, 107, 230, 7, 4, 45, 95, 131, 143, 51, 186, 30, 97, 40, 7, 51, 146, 186, 30, 59, 134, 207, 42, 106, 103, 251, 194, 114, 153, 86, 137, 129, 254, 107, 252, 108, 166, 14, 22, 7, 58, 8, 83, 108, 252, 56, 199, 141, 95, 57, 14, 138, 163, 185, 224, 183, 247, 92, 5, 72, 186, 163, 76, 209, 105, 182, 165, 51, 179, 224, 243, 57, 155, 32, 44, 114, 45, 247, 156, 212, 250, 115, 227, 155, 178, 101, 5, 27, 181, 22, 114, 172, 90, 148, 15, 233, 166, 62, 177, 239, 38, 96, 188, 158, 37, 63, 163, 166, 27, 122, 42, 161, 111, 135, 235, 156, 149, 27, 0, 167, 3, 2, 25, 119, 193, 163, 235, 56, 240, 232, 184, 125, 232, 45, 82, 39, 175, 219, 6, 180, 189, 24, 226, 211>>>>,
  <<"xxhash64", 4194310, <<10, 255, 162, 115, 134, 228, 246, 210>>>>,
  <<"xxhash64", 4198392, <<84, 233, 112, 234, 172, 201, 119, 0>>>>,
  <<"xxhash64", 5448091, <<73, 119, 44, 49, 19, 83, 238, 58>>>>,
  <<"xxhash32", 4194309, <<96, 100, 252, 208>>>>,
  <<"xxhash32", 4198397, <<252, 10, 134, 164>>>>,
  <<"xxhash32", 4561624, <<66, 183, 226, 145>>>>,
  <<"sha-224", 8388615, <<79, 142, 182, 171, 232, 121, 119, 85, 176, 164, 88, 55, 32, 37, 39, 164, 227, 246, 132, 244, 16, 179, 95, 229, 150, 231, 141, 167>>>>,
  <<"sha-224", 8392701, <<143, 250, 93, 69, 102, 161, 134, 22, 90, 233, 211, 50, 27, 223, 138, 138, 194, 118, 189, 130, 200, 11, 31, 186, 96, 197, 135, 163>>>>,
  <<"sha-224", 8658381, <<135, 93, 83, 26, 3, 78, 219, 125, 171, 226, 209, 87, 234, 22, 163, 7, 11, 213, 245, 199, 54, 132, 244, 57, 89, 111, 180, 23>>>>,
  <<"sha-256", 8388612, <<11, 131, 107, 96, 253, 195, 14, 224, 61, 8, 16, 41, 103, 164, 18, 244, 59, 189, 70, 0, 100, 73, 230, 165, 71, 70, 212, 170, 233, 87, 218, 24>>>>,
  <<"sha-256", 8392702, <<36, 9, 214, 68, 225, 109, 158, 71, 19, 163, 72, 254, 238, 122, 94, 155, 83, 255, 41, 218, 246, 163, 213, 146, 48, 146, 220, 174, 219, 73, 161, 134>>>>,
  <<"sha-256", 8911394, <<253, 196, 29, 131, 160, 84, 84, 15, 0, 75, 130, 152, 237, 115, 251, 247, 205, 110, 230, 101, 3, 190, 77, 207, 170, 5, 174, 52, 66, 110, 210, 45>>>>,
  <<"sha-384", 8388609, <<217, 174, 199, 3, 238, 30, 131, 15, 50, 224, 102, 6, 157, 195, 48, 126, 145, 205, 239, 93, 202, 23, 30, 224, 210, 186, 57, 117, 150, 204, 234, 200, 237, 167, 168, 203, 38, 59, 160, 96, 182, 218, 108, 46, 73, 7, 108, 6>>>>,
  <<"sha-384", 8392701, <<200, 138, 116, 153, 67, 219, 144, 25, 8, 41, 239, 86, 16, 83, 178, 63, 210, 175, 202, 176, 157, 154, 57, 44, 67, 241, 101, 194, 202, 44, 2, 124, 252, 89, 84, 183, 83, 76, 12, 17, 218, 108, 123, 179, 52, 254, 104, 156>>>>,
  <<"sha-384", 14440275, <<64, 165, 201, 22, 67, 15, 112, 114, 115, 53, 150, 222, 135, 41, 35, 154, 43, 162, 71, 214, 41, 101, 5, 253, 235, 177, 168, 92, 107, 77, 67, 53, 153, 72, 39, 110, 32, 90, 169, 155, 218, 15, 2, 225, 118, 166, 214, 49>>>>,
  <<"sha-512", 8388610, <<1, 119, 52, 147, 161, 180, 214, 167, 116, 46, 52, 21, 8, 173, 136, 70, 100, 117, 37, 83, 238, 103, 52, 76, 109, 31, 20, 160, 221, 238, 176, 67, 87, 150, 157, 115, 157, 76, 93, 47, 203, 119, 84, 160, 68, 140, 253, 191, 53, 225, 213, 7, 211, 248, 11, 243, 35, 82, 76, 45, 199, 143, 94, 212>>>>,
  <<"sha-512", 8392697, <<100, 99, 4, 25, 210, 243, 208, 89, 45, 58, 18, 144, 241, 18, 210, 200, 164, 107, 65, 157, 8, 172, 204, 178, 28, 182, 48, 217, 180, 39, 159, 54, 92, 40, 253, 133, 56, 190, 41, 32, 247, 95, 191, 23, 141, 214, 3, 39, 137, 101, 167, 239, 133, 157, 182, 113, 128, 200, 216, 242, 39, 1, 246, 168>>>>,
  <<"sha-512", 15961611, <<241, 221, 44, 104, 4, 42, 228, 125, 205, 209, 72, 8, 13, 130, 175, 196, 198, 103, 82, 1, 234, 84, 47, 188, 182, 233, 246, 108, 86, 139, 31, 190, 196, 233, 133, 101, 231, 144, 239, 33, 218, 151, 164, 237, 66, 162, 233, 202, 190, 129, 213, 89, 220, 167, 169, 87, 165, 229, 59, 226, 21, 90, 226, 249>>>>,
  <<"sha-512/224", 8388609, <<221, 37, 43, 105, 121, 77, 44, 252, 81, 231, 179, 194, 110, 44, 33, 68, 122, 19, 231, 209, 130, 207, 205, 134, 112, 112, 106, 207>>>>,
  <<"sha-512/224", 8392703, <<191, 93, 199, 34, 196, 121, 12, 71, 73, 40, 14, 104, 205, 125, 51, 44, 16, 162, 249, 102, 217, 65, 90, 139, 149, 33, 174, 28>>>>,
  <<"sha-512/224", 12491638, <<120, 92, 251, 143, 78, 228, 37, 199, 204, 251, 33, 217, 164, 190, 209, 195, 183, 112, 135, 84, 81, 83, 31, 18, 180, 126, 210, 154>>>>,
  <<"sha-512/256", 8388616, <<226, 144, 188, 184, 35, 19, 138, 60, 212, 58, 153, 116, 29, 119, 136, 47, 177, 161, 200, 86, 229, 210, 147, 119, 7, 27, 25, 85, 176, 168, 194, 238>>>>,
  <<"sha-512/256", 8392699, <<17, 83, 120, 120, 235, 197, 205, 122, 194, 40, 230, 202, 213, 78, 4, 189, 152, 166, 7, 251, 156, 237, 73, 144, 115, 197, 10, 232, 162, 73, 94, 124>>>>,
  <<"sha-512/256", 8444213, <<131, 165, 73, 119, 98, 188, 86, 177, 113, 191, 179, 102, 47, 160, 242, 111, 253, 100, 115, 211, 94, 196, 34, 32, 23, 97, 236, 49, 172, 109, 88, 40>>>>,
  <<"sha3-224", 8388616, <<180, 198, 247, 62, 156, 217, 141, 120, 154, 118, 205, 75, 233, 187, 145, 244, 61, 8, 110, 146, 92, 51, 76, 177, 147, 108, 213, 114>>>>,
  <<"sha3-224", 8392702, <<195, 134, 134, 255, 141, 160, 9, 53, 17, 134, 139, 45, 95, 241, 177, 23, 142, 227, 18, 84, 252, 112, 220, 78, 224, 52, 207, 250>>>>,
  <<"sha3-224", 9931137, <<5, 145, 32, 180, 140, 92, 12, 140, 217, 32, 40, 184, 171, 230, 237, 253, 184, 62, 79, 92, 242, 232, 240, 57, 118, 181, 68, 110>>>>,
  <<"sha3-256", 8388610, <<185, 107, 48, 136, 87, 153, 65, 230, 172, 83, 32, 194, 92, 101, 176, 9, 93, 141, 248, 245, 48, 141, 176, 196, 172, 143, 150, 203, 48, 165, 36, 70>>>>,
  <<"sha3-256", 8392696, <<62, 160, 53, 55, 135, 144, 171, 228, 14, 248, 156, 25, 244, 206, 227, 253, 255, 141, 40, 184, 0, 196, 147, 66, 52, 238, 165, 202, 62, 55, 105, 123>>>>,
  <<"sha3-256", 12619713, <<6, 139, 61, 82, 224, 223, 64, 248, 143, 131, 155, 25, 60, 30, 134, 212, 105, 3, 24, 111, 30, 83, 15, 219, 225, 42, 138, 9, 65, 184, 41, 136>>>>,
  <<"sha3-384", 8388610, <<203, 26, 76, 210, 18, 207, 136, 137, 2, 104, 176, 242, 120, 224, 143, 235, 47, 173, 70, 64, 146, 165, 167, 52, 159, 16, 206, 220, 232, 185, 86, 249, 176, 24, 107, 71, 1, 240, 41, 188, 131, 3, 150, 162, 156, 124, 204, 74>>>>,
  <<"sha3-384", 8392699, <<114, 69, 111, 111, 51, 251, 214, 212, 60, 185, 114, 174, 88, 244, 40, 140, 186, 15, 200, 252, 81, 171, 68, 243, 66, 42, 93, 90, 177, 9, 210, 214, 126, 90, 8, 159, 53, 68, 193, 210, 203, 235, 214, 162, 71, 209, 230, 91>>>>,
  <<"sha3-384", 12327657, <<98, 88, 87, 165, 226, 1, 126, 18, 162, 214, 159, 244, 171, 187, 150, 81, 169, 37, 232, 8, 228, 110, 182, 15, 59, 196, 227, 104, 149, 132, 196, 213, 13, 229, 17, 227, 144, 56, 24, 223, 158, 63, 205, 77, 143, 98, 113, 194>>>>,
  <<"sha3-512", 8388612, <<140, 18, 172, 141, 122, 142, 219, 2, 124, 112, 9, 28, 199, 229, 177, 7, 78, 208, 228, 234, 9, 235, 136, 86, 7, 249, 252, 188, 134, 216, 144, 146, 224, 215, 209, 58, 119, 161, 175, 214, 89, 133, 80, 203, 175, 47, 115, 188, 194, 34, 166, 48, 199, 32, 106, 28, 223, 108, 158, 89, 173, 160, 52, 60>>>>,
  <<"sha3-512", 8392700, <<56, 68, 46, 207, 3, 202, 5, 19, 200, 110, 200, 176, 135, 122, 50, 248, 165, 148, 242, 31, 96, 199, 190, 94, 180, 78, 177, 220, 220, 77, 102, 21, 66, 231, 74, 101, 165, 137, 187, 27, 35, 141, 64, 55, 141, 208, 205, 174, 126, 226, 114, 166, 131, 56, 52, 63, 112, 50, 157, 226, 162, 162, 39, 156>>>>,
  <<"sha3-512", 16111832, <<23, 116, 81, 164, 217, 148, 102, 240, 115, 236, 164, 253, 234, 16, 183, 233, 9, 74, 212, 54, 189, 102, 13, 61, 220, 40, 29, 174, 199, 125, 117, 58, 184, 59, 82, 164, 144, 197, 110, 216, 61, 248, 51, 127, 77, 88, 6, 166, 90, 174, 72, 71, 56, 222, 250, 175, 178, 208, 13, 90, 172, 38, 157, 235>>>>,
  <<"shake-128/32", 8388616, <<244, 28, 105, 45>>>>,
  <<"shake-128/32", 8392697, <<30, 87, 171, 203>>>>,
  <<"shake-128/32", 9676089, <<168, 172, 149, 10>>>>,
  <<"shake-128/64", 8388616, <<244, 28, 105, 45, 48, 169, 240, 41>>>>,
  <<"shake-128/64", 8392699, <<171, 44, 110, 89, 226, 83, 201, 224>>>>,
  <<"shake-128/64", 9172900, <<26, 90, 26, 163, 212, 104, 238, 93>>>>,
  <<"shake-128/128", 8388612, <<33, 224, 72, 228, 38, 196, 20, 1, 67, 44, 139, 97, 249, 8, 210, 31>>>>,
  <<"shake-128/128", 8392702, <<176, 16, 30, 98, 233, 95, 29, 36, 234, 173, 9, 96, 89, 55, 126, 0>>>>,
  <<"shake-128/128", 10861990, <<215, 43, 4, 217, 48, 223, 131, 4, 144, 34, 246, 87, 143, 0, 7, 4>>>>,
  <<"shake-128/256", 8388614, <<249, 37, 248, 66, 47, 116, 71, 33, 179, 171, 216, 101, 193, 214, 148, 128, 25, 175, 26, 119, 9, 107, 185, 68, 129, 105, 25, 64, 26, 205, 4, 227>>>>,
  <<"shake-128/256", 8392699, <<171, 44, 110, 89, 226, 83, 201, 224, 79, 249, 144, 10, 16, 27, 201, 209, 166, 177, 156, 34, 101, 222, 162, 100, 158, 71, 205, 191, 254, 67, 156, 113>>>>,
  <<"shake-128/256", 13495880, <<102, 113, 203, 242, 24, 77, 141, 8, 169, 82, 26, 245, 112, 143, 100, 131, 26, 176, 66, 54, 72, 167, 24, 57, 47, 91, 108, 109, 85, 18, 54, 120>>>>,
  <<"shake-128/512", 8388611, <<30, 168, 251, 97, 91, 166, 230, 26, 147, 165, 69, 124, 46, 159, 180, 68, 173, 220, 241, 154, 73, 205, 17, 225, 169, 131, 146, 251, 232, 10, 92, 91, 121, 129, 208, 162, 103, 19, 45, 167, 242, 80, 58, 139, 2, 242, 50, 72, 88, 235, 41, 63, 234, 50, 158, 68, 153, 92, 109, 199, 148, 246, 192, 90>>>>,
  <<"shake-128/512", 8392703, <<81, 105, 57, 77, 52, 81, 67, 140, 183, 201, 60, 201, 183, 239, 142, 91, 57, 104, 106, 80, 199, 6, 63, 43, 211, 97, 215, 59, 128, 229, 97, 156, 236, 46, 118, 11, 234, 110, 18, 138, 173, 34, 227, 18, 4, 127, 180, 176, 174, 36, 28, 225, 220, 75, 81, 129, 204, 243, 190, 3, 222, 63, 203, 239>>>>,
  <<"shake-128/512", 16482284, <<219, 245, 129, 227, 55, 100, 132, 43, 102, 189, 90, 145, 98, 86, 51, 39, 255, 255, 25, 237, 118, 134, 220, 0, 251, 147, 98, 149, 251, 33, 42, 21, 125, 214, 7, 133, 189, 71, 138, 57, 178, 143, 63, 226, 83, 207, 58, 43, 247, 209, 224, 71, 32, 217, 118, 178, 131, 208, 159, 236, 239, 179, 146, 99>>>>,
  <<"shake-128/1024", 8388609, <<178, 253, 40, 43, 198, 80, 236, 16, 182, 42, 163, 6, 29, 23, 28, 212, 131, 54, 155, 27, 147, 32, 11, 99, 202, 11, 190, 64, 206, 197, 68, 64, 202, 13, 106, 80, 177, 31, 16, 60, 38, 164, 22, 68, 227, 56, 146, 109, 137, 184, 215, 75, 205, 52, 225, 201, 51, 224, 118, 10, 177, 167, 18, 201, 188, 108, 187, 212, 70, 230, 62, 172, 137, 126, 114, 246, 141, 207, 147, 22, 29, 172, 163, 199, 92, 181, 164, 137, 17, 179, 47, 129, 120, 20, 118, 161, 216, 193, 100, 6, 180, 225, 144, 186, 14, 192, 223, 14, 241, 251, 139, 113, 203, 129, 49, 120, 208, 20, 218, 136, 6, 68, 223, 99, 140, 112, 138, 161>>>>,
  <<"shake-128/1024", 8392696, <<16, 42, 171, 4, 121, 202, 152, 139, 211, 147, 14, 248, 211, 129, 8, 3, 27, 24, 27, 13, 26, 9, 213, 191, 32, 116, 201, 82, 15, 103, 81, 101, 163, 89, 27, 146, 85, 241, 217, 91, 76, 201, 30, 23, 198, 99, 164, 155, 145, 134, 214, 209, 242, 22, 126, 180, 35, 179, 102, 93, 69, 7, 246, 237, 50, 111, 240, 140, 151, 134, 101, 232, 158, 223, 119, 122, 177, 105, 222, 187, 224, 39, 208, 103, 178, 26, 0, 17, 91, 197, 193, 160, 105, 154, 55, 30, 201, 17, 100, 124, 242, 103, 108, 8, 172, 63, 209, 126, 240, 144, 38, 13, 112, 203, 223, 218, 231, 229, 35, 187, 187, 35, 160, 9, 108, 141, 115, 93>>>>,
  <<"shake-128/1024", 12897866, <<146, 111, 225, 131, 184, 215, 226, 20, 127, 164, 194, 211, 159, 177, 199, 143, 29, 107, 81, 208, 123, 247, 4, 26, 183, 86, 74, 20, 241, 50, 203, 178, 79, 11, 51, 140, 56, 160, 209, 103, 129, 185, 176, 253, 95, 124, 147, 88, 73, 43, 84, 175, 10, 227, 203, 11, 97, 155, 90, 75, 21, 52, 56, 62, 23, 203, 252, 235, 187, 190, 159, 216, 37, 252, 227, 194, 164, 120, 198, 145, 178, 7, 154, 65, 157, 189, 137, 228, 102, 250, 102, 150, 147, 55, 119, 169, 115, 28, 80, 242, 5, 5, 9, 145, 135, 240, 236, 29, 198, 210, 178, 39, 178, 14, 191, 90, 180, 96, 1, 178, 6, 72, 18, 120, 164, 221, 253, 208>>>>,
  <<"shake-128/2048", 8388610, <<77, 68, 250, 163, 87, 70, 93, 82, 188, 93, 170, 242, 138, 16, 106, 148, 14, 8, 33, 226, 10, 200, 111, 52, 194, 35, 50, 7, 61, 170, 146, 84, 184, 179, 30, 37, 154, 248, 82, 42, 235, 130, 181, 208, 149, 28, 63, 160, 108, 105, 78, 36, 233, 55, 42, 11, 106, 128, 50, 101, 175, 165, 130, 246, 20, 185, 169, 139, 102, 254, 251, 145, 9, 131, 191, 66, 207, 144, 179, 29, 139, 31, 37, 64, 244, 243, 190, 187, 50, 12, 239, 98, 168, 215, 237, 66, 225, 204, 86, 184, 81, 63, 153, 192, 16, 127, 157, 220, 202, 28, 148, 171, 137, 215, 94, 13, 122, 163, 82, 164, 204, 106, 60, 235, 123, 116, 243, 122, 106, 185, 241, 139, 8, 77, 19, 28, 75, 16, 61, 57, 17, 213, 169, 47, 145, 136, 95, 76, 210, 92, 5, 210, 216, 246, 92, 114, 87, 186, 29, 209, 178, 174, 32, 127, 158, 160, 255, 146, 217, 235, 170, 106, 140, 143, 172, 167, 208, 137, 1, 59, 111, 234, 120, 159, 182, 147, 49, 235, 7, 70, 6, 218, 146, 119, 136, 17, 76, 180, 168, 234, 227, 137, 141, 71, 115, 42, 159, 196, 23, 165, 98, 33, 206, 181, 121, 115, 169, 200, 96, 185, 74, 176, 114, 38, 85, 136, 197, 17, 156, 250, 54, 5, 151, 129, 160, 178, 115, 153, 18, 188, 115, 119, 211, 108, 130, 44, 103, 46, 107, 247, 26, 44, 175, 204, 128, 95>>>>,
  <<"shake-128/2048", 8392700, <<124, 144, 231, 73, 180, 33, 29, 196, 127, 142, 53, 58, 164, 115, 249, 74, 3, 0, 68, 150, 105, 114, 74, 88, 152, 67, 135, 204, 212, 87, 100, 220, 155, 100, 113, 140, 96, 203, 127, 136, 223, 136, 247, 209, 240, 18, 230, 200, 237, 252, 167, 105, 154, 178, 11, 5, 115, 137, 154, 121, 90, 217, 83, 34, 255, 224, 232, 101, 123, 211, 182, 204, 207, 161, 14, 253, 128, 231, 26, 141, 184, 58, 84, 210, 92, 70, 92, 232, 27, 147, 23, 11, 91, 146, 69, 65, 172, 112, 9, 87, 189, 20, 81, 184, 190, 98, 210, 184, 115, 1, 188, 222, 188, 1, 104, 141, 59, 215, 237, 129, 148, 104, 12, 116, 192, 143, 93, 81, 155, 110, 118, 249, 16, 219, 195, 226, 251, 105, 189, 108, 228, 200, 208, 57, 74, 73, 65, 172, 196, 116, 170, 208, 143, 123, 53, 16, 26, 70, 118, 227, 64, 49, 185, 159, 30, 101, 80, 90, 163, 47, 128, 1, 5, 242, 18, 97, 226, 194, 63, 67, 36, 215, 190, 62, 216, 241, 20, 82, 191, 7, 142, 53, 105, 78, 34, 236, 5, 111, 47, 52, 38, 63, 38, 138, 246, 192, 79, 246, 131, 156, 166, 102, 100, 86, 61, 155, 77, 159, 172, 115, 203, 239, 48, 118, 71, 7, 145, 197, 97, 199, 94, 18, 12, 210, 116, 139, 58, 108, 234, 252, 145, 162, 238, 153, 251, 56, 161, 180, 195, 240, 92, 56, 16, 137, 7, 183>>>>,
  <<"shake-128/2048", 16602973, <<183, 184, 136, 154, 231, 57, 127, 71, 236, 151, 30, 139, 122, 225, 254, 184, 142, 202, 55, 165, 5, 52, 122, 141, 195, 63, 149, 18, 100, 180, 120, 38, 17, 102, 123, 61, 152, 40, 47, 152, 113, 69, 167, 252, 62, 9, 185, 165, 43, 126, 248, 153, 52, 212, 56, 143, 82, 73, 185, 91, 61, 1, 24, 116, 38, 230, 9, 53, 86, 127, 119, 191, 58, 92, 122, 58, 121, 14, 108, 121, 34, 133, 64, 84, 160, 173, 20, 165, 101, 129, 104, 59, 220, 251, 77, 110, 48, 163, 17, 207, 117, 119, 215, 16, 137, 206, 221, 52, 146, 205, 115, 44, 144, 64, 22, 191, 29, 144, 111, 86, 206, 61, 229, 235, 117, 93, 48, 73, 140, 191, 6, 35, 13, 195, 186, 141, 102, 221, 20, 204, 58, 76, 17, 63, 230, 221, 227, 18, 252, 108, 207, 247, 254, 9, 173, 6, 91, 32, 18, 216, 31, 150, 46, 253, 155, 30, 191, 233, 36, 124, 234, 91, 73, 178, 211, 145, 7, 27, 214, 220, 138, 222, 88, 229, 62, 149, 144, 49, 18, 130, 123, 131, 106, 179, 202, 92, 119, 156, 112, 174, 123, 144, 188, 124, 93, 180, 230, 233, 65, 236, 143, 191, 123, 88, 135, 196, 77, 237, 90, 251, 241, 238, 203, 71, 133, 4, 199, 231, 193, 181, 61, 198, 60, 89, 203, 214, 245, 134, 217, 57, 28, 122, 240, 52, 94, 113, 140, 44, 215, 76, 252, 127, 129, 75, 64, 8>>>>,
  <<"shake-256/32", 8388613, <<38, 71, 167, 231>>>>,
  <<"shake-256/32", 8392699, <<18, 220, 1, 160>>>>,
  <<"shake-256/32", 16184357, <<64, 18, 9, 32>>>>,
  <<"shake-256/64", 8388616, <<189, 74, 199, 79, 109, 193, 52, 193>>>>,
  <<"shake-256/64", 8392696, <<18, 244, 244, 173, 73, 151, 153, 206>>>>,
  <<"shake-256/64", 10376756, <<87, 232, 180, 205, 89, 22, 218, 118>>>>,
  <<"shake-256/128", 8388612, <<87, 38, 233, 124, 1, 12, 87, 248, 107, 40, 74, 87, 25, 97, 133, 101>>>>,
  <<"shake-256/128", 8392699, <<18, 220, 1, 160, 88, 1, 141, 161, 228, 200, 72, 252, 177, 138, 134, 252>>>>,
  <<"shake-256/128", 9829003, <<68, 253, 8, 83, 205, 22, 221, 252, 175, 247, 87, 67, 41, 63, 222, 159>>>>,
  <<"shake-256/256", 8388616, <<189, 74, 199, 79, 109, 193, 52, 193, 200, 49, 131, 68, 250, 15, 72, 175, 101, 188, 187, 45, 65, 216, 196, 33, 246, 101, 130, 162, 182, 229, 76, 48>>>>,
  <<"shake-256/256", 8392703, <<146, 32, 47, 226, 220, 89, 21, 173, 103, 161, 129, 212, 241, 162, 55, 94, 117, 124, 89, 48, 90, 218, 11, 205, 37, 81, 177, 48, 171, 172, 38, 150>>>>,
  <<"shake-256/256", 13247103, <<46, 152, 10, 38, 82, 69, 39, 72, 194, 86, 185, 170, 9, 80, 38, 10, 66, 197, 198, 228, 246, 18, 27, 34, 218, 21, 26, 242, 197, 58, 110, 136>>>>,
  <<"shake-256/512", 8388616, <<189, 74, 199, 79, 109, 193, 52, 193, 200, 49, 131, 68, 250, 15, 72, 175, 101, 188, 187, 45, 65, 216, 196, 33, 246, 101, 130, 162, 182, 229, 76, 48, 211, 79, 136, 209, 203, 76, 3, 44, 76, 113, 73, 253, 138, 171, 125, 36, 225, 111, 56, 255, 166, 176, 79, 180, 60, 4, 104, 157, 155, 3, 231, 182>>>>,
  <<"shake-256/512", 8392702, <<183, 55, 71, 36, 44, 4, 241, 109, 168, 118, 23, 72, 246, 75, 48, 201, 182, 136, 174, 59, 134, 186, 126, 191, 27, 196, 2, 246, 156, 30, 89, 128, 149, 50, 164, 180, 230, 56, 251, 169, 79, 162, 240, 12, 106, 144, 137, 30, 128, 126, 4, 69, 16, 155, 133, 128, 66, 97, 130, 219, 34, 241, 248, 202>>>>,
  <<"shake-256/512", 15929143, <<216, 188, 84, 18, 213, 35, 132, 92, 33, 128, 165, 63, 112, 130, 26, 4, 59, 188, 235, 227, 57, 52, 24, 117, 169, 130, 92, 126, 136, 94, 98, 99, 66, 93, 253, 95, 226, 183, 238, 211, 242, 41, 23, 119, 74, 39, 108, 116, 77, 40, 5, 138, 37, 208, 59, 195, 11, 74, 47, 41, 175, 38, 238, 130>>>>,
  <<"shake-256/1024", 8388613, <<38, 71, 167, 231, 31, 114, 12, 122, 97, 148, 195, 26, 51, 176, 9, 114, 77, 202, 234, 30, 134, 37, 180, 13, 28, 251, 175, 33, 1, 249, 210, 186, 8, 252, 30, 184, 115, 77, 232, 110, 127, 142, 113, 45, 79, 57, 78, 134, 65, 161, 191, 172, 56, 139, 105, 121, 181, 227, 68, 113, 189, 140, 125, 105, 170, 117, 232, 224, 156, 75, 194, 141, 93, 157, 105, 110, 161, 13, 66, 178, 211, 219, 40, 167, 90, 94, 113, 208, 239, 199, 101, 165, 132, 153, 95, 162, 165, 175, 77, 251, 160, 228, 19, 46, 188, 91, 24, 98, 92, 207, 178, 56, 179, 45, 207, 162, 150, 234, 62, 60, 43, 248, 193, 71, 134, 141, 102, 244>>>>,
  <<"shake-256/1024", 8392697, <<251, 6, 123, 0, 249, 249, 77, 140, 125, 90, 124, 36, 110, 119, 223, 23, 5, 86, 146, 216, 217, 89, 76, 31, 162, 165, 140, 10, 180, 88, 241, 220, 153, 232, 177, 163, 64, 211, 74, 233, 253, 253, 7, 76, 143, 144, 180, 136, 5, 89, 202, 100, 164, 104, 45, 52, 38, 142, 197, 134, 80, 217, 115, 172, 210, 181, 125, 137, 22, 172, 144, 253, 173, 172, 245, 97, 16, 103, 28, 129, 116, 222, 39, 154, 73, 200, 209, 108, 220, 93, 162, 0, 146, 39, 150, 164, 7, 101, 98, 197, 184, 60, 173, 251, 157, 187, 53, 167, 244, 172, 211, 2, 48, 92, 139, 21, 156, 139, 161, 46, 75, 46, 46, 207, 252, 255, 143, 96>>>>,
  <<"shake-256/1024", 11909092, <<20, 145, 15, 13, 28, 119, 133, 72, 7, 206, 102, 78, 240, 184, 72, 10, 247, 86, 79, 232, 223, 207, 42, 9, 141, 231, 12, 165, 133, 62, 255, 92, 109, 173, 230, 60, 201, 56, 43, 159, 235, 201, 153, 227, 179, 65, 70, 231, 19, 87, 108, 213, 118, 250, 76, 66, 215, 133, 70, 118, 91, 66, 193, 9, 0, 148, 140, 4, 18, 162, 222, 200, 159, 36, 82, 208, 255, 64, 243, 155, 221, 100, 199, 128, 38, 39, 203, 58, 126, 169, 172, 157, 121, 112, 178, 190, 27, 22, 177, 171, 21, 16, 254, 203, 0, 45, 184, 104, 136, 73, 226, 9, 205, 200, 241, 79, 55, 42, 57, 159, 108, 152, 232, 111, 67, 100, 235, 203>>>>,
  <<"shake-256/2048", 8388612, <<87, 38, 233, 124, 1, 12, 87, 248, 107, 40, 74, 87, 25, 97, 133, 101, 206, 106, 182, 26, 242, 94, 69, 109, 128, 111, 114, 86, 114, 177, 20, 35, 46, 36, 200, 224, 108, 203, 246, 69, 18, 214, 224, 187, 237, 170, 139, 159, 36, 44, 189, 42, 106, 229, 8, 68, 173, 51, 62, 104, 149, 92, 176, 30, 29, 178, 6, 201, 55, 194, 139, 135, 123, 77, 133, 232, 93, 173, 73, 214, 116, 0, 174, 83, 239, 252, 165, 85, 91, 67, 122, 24, 147, 212, 162, 128, 101, 236, 233, 239, 38, 61, 128, 227, 190, 29, 187, 90, 76, 180, 23, 48, 128, 31, 93, 78, 172, 235, 214, 107, 99, 1, 11, 112, 16, 245, 233, 69, 75, 203, 253, 24, 93, 3, 175, 107, 74, 255, 179, 230, 5, 38, 129, 102, 223, 127, 6, 155, 38, 181, 85, 66, 30, 33, 171, 244, 148, 198, 79, 68, 161, 8, 85, 158, 60, 21, 250, 30, 21, 90, 53, 206, 64, 190, 75, 162, 57, 61, 140, 124, 22, 73, 67, 157, 56, 39, 92, 247, 230, 22, 155, 161, 64, 31, 226, 135, 152, 106, 209, 106, 202, 24, 72, 2, 113, 52, 128, 78, 130, 154, 58, 227, 127, 87, 29, 246, 252, 220, 164, 137, 199, 251, 165, 36, 119, 110, 9, 83, 123, 96, 49, 90, 33, 150, 122, 13, 206, 129, 150, 189, 41, 2, 218, 7, 100, 136, 213, 12, 139, 97, 56, 98, 253, 223, 232, 235>>>>,
  <<"shake-256/2048", 8392702, <<183, 55, 71, 36, 44, 4, 241, 109, 168, 118, 23, 72, 246, 75, 48, 201, 182, 136, 174, 59, 134, 186, 126, 191, 27, 196, 2, 246, 156, 30, 89, 128, 149, 50, 164, 180, 230, 56, 251, 169, 79, 162, 240, 12, 106, 144, 137, 30, 128, 126, 4, 69, 16, 155, 133, 128, 66, 97, 130, 219, 34, 241, 248, 202, 58, 82, 178, 64, 191, 10, 222, 160, 44, 223, 53, 199, 174, 120, 199, 89, 47, 43, 151, 131, 184, 49, 50, 167, 14, 227, 37, 33, 60, 1, 143, 14, 54, 203, 175, 66, 245, 134, 255, 40, 197, 129, 40, 38, 52, 173, 70, 22, 24, 28, 83, 210, 82, 155, 156, 170, 176, 101, 39, 144, 192, 209, 207, 181, 155, 254, 47, 47, 244, 3, 136, 50, 67, 101, 95, 109, 6, 47, 60, 185, 254, 246, 250, 23, 147, 76, 216, 78, 15, 180, 56, 22, 52, 175, 6, 79, 73, 34, 225, 114, 92, 151, 32, 229, 84, 169, 255, 84, 69, 160, 204, 194, 154, 211, 197, 156, 132, 203, 254, 130, 253, 199, 64, 63, 238, 11, 45, 113, 43, 55, 98, 196, 29, 137, 249, 216, 211, 117, 193, 190, 12, 237, 182, 20, 154, 4, 62, 239, 209, 184, 69, 147, 182, 60, 94, 64, 63, 155, 62, 199, 12, 179, 185, 115, 34, 254, 192, 143, 201, 159, 56, 161, 105, 162, 253, 112, 37, 105, 37, 73, 32, 134, 157, 162, 99, 204, 142, 25, 160, 71, 190, 185>>>>,
  <<"shake-256/2048", 9903642, <<218, 41, 171, 202, 5, 16, 200, 209, 174, 130, 11, 99, 207, 43, 21, 131, 153, 48, 200, 253, 184, 23, 195, 225, 40, 255, 37, 121, 86, 218, 239, 145, 209, 122, 164, 235, 60, 233, 126, 146, 22, 47, 91, 55, 178, 135, 71, 254, 118, 179, 90, 216, 114, 74, 75, 66, 87, 114, 10, 15, 118, 180, 73, 204, 41, 24, 186, 25, 211, 141, 227, 111, 223, 146, 153, 89, 54, 106, 237, 83, 218, 169, 157, 191, 10, 170, 149, 117, 166, 101, 9, 239, 25, 220, 102, 107, 29, 174, 147, 105, 91, 163, 110, 137, 203, 32, 178, 243, 45, 38, 97, 43, 39, 248, 43, 216, 155, 121, 65, 12, 26, 180, 156, 227, 95, 88, 109, 193, 207, 75, 136, 70, 198, 47, 28, 167, 168, 36, 228, 157, 202, 171, 199, 45, 52, 59, 218, 188, 13, 15, 189, 151, 252, 91, 100, 188, 168, 173, 123, 115, 225, 50, 115, 155, 199, 63, 254, 177, 128, 176, 143, 188, 75, 43, 166, 42, 144, 200, 227, 119, 48, 33, 113, 208, 94, 198, 84, 98, 188, 98, 6, 244, 212, 62, 2, 154, 146, 143, 240, 117, 28, 77, 255, 181, 238, 134, 7, 47, 76, 103, 100, 75, 102, 147, 71, 221, 110, 24, 180, 61, 92, 143, 159, 100, 131, 238, 97, 114, 177, 189, 160, 155, 102, 87, 199, 122, 60, 138, 113, 82, 202, 184, 133, 133, 119, 255, 117, 225, 194, 116, 184, 117, 230, 182, 86, 112>>>>,
  <<"xxhash64", 8388611, <<34, 156, 38, 175, 79, 11, 188, 248>>>>,
  <<"xxhash64", 8392699, <<56, 32, 180, 42, 106, 212, 83, 231>>>>,
  <<"xxhash64", 14420916, <<52, 166, 90, 168, 80, 164, 12, 202>>>>,
  <<"xxhash32", 8388611, <<7, 54, 131, 197>>>>,
  <<"xxhash32", 8392699, <<112, 83, 157, 78>>>>,
  <<"xxhash32", 10279023, <<4, 212, 228, 134>>>>,
  <<"sha-224", 16777222, <<116, 213, 1, 173, 142, 10, 85, 242, 99, 60, 57, 49, 17, 116, 95, 179, 170, 170, 26, 171, 166, 46, 212, 18, 250, 197, 88, 92>>>>,
  <<"sha-224", 16781308, <<111, 48, 36, 90, 222, 84, 43, 84, 115, 188, 103, 181, 253, 218, 129, 30, 252, 4, 147, 26, 207, 242, 56, 181, 125, 118, 215, 218>>>>,
  <<"sha-224", 33483563, <<161, 243, 69, 212, 30, 255, 226, 67, 152, 11, 161, 240, 22, 221, 116, 169, 227, 231, 40, 234, 69, 191, 26, 93, 154, 169, 206, 75>>>>,
  <<"sha-256", 16777224, <<134, 24, 254, 142, 106, 255, 144, 39, 178, 139, 41, 241, 24, 132, 8, 172, 218, 201, 25, 139, 212, 29, 120, 114, 23, 195, 104, 194, 65, 144, 35, 234>>>>,
  <<"sha-256", 16781305, <<140, 23, 76, 81, 48, 208, 11, 233, 14, 163, 178, 157, 29, 178, 78, 246, 160, 149, 129, 79, 81, 83, 47, 45, 42, 81, 99, 166, 111, 57, 33, 208>>>>,
  <<"sha-256", 17610520, <<173, 27, 198, 68, 212, 15, 198, 163, 221, 216, 12, 150, 152, 251, 41, 2, 241, 70, 237, 63, 36, 44, 8, 70, 101, 207, 129, 24, 10, 174, 175, 30>>>>,
  <<"sha-384", 16777219, <<42, 125, 67, 212, 63, 180, 169, 174, 231, 155, 171, 216, 211, 122, 164, 47, 63, 225, 90, 220, 118, 27, 180, 168, 94, 78, 82, 151, 7, 39, 229, 242, 36, 105, 31, 138, 81, 61, 255, 6, 106, 180, 71, 201, 197, 202, 110, 77>>>>,
  <<"sha-384", 16781311, <<186, 219, 157, 223, 251, 116, 102, 252, 178, 70, 106, 42, 184, 68, 162, 252, 10, 150, 134, 43, 141, 128, 209, 110, 246, 150, 169, 137, 202, 16, 217, 10, 106, 124, 154, 71, 70, 94, 226, 84, 58, 206, 250, 50, 29, 21, 161, 37>>>>,
  <<"sha-384", 33275799, <<91, 251, 36, 108, 227, 106, 163, 59, 184, 65, 97, 226, 52, 78, 189, 135, 52, 19, 98, 206, 177, 166, 155, 158, 202, 103, 71, 107, 112, 50, 174, 254, 17, 11, 195, 67, 114, 86, 107, 189, 112, 37, 239, 52, 15, 103, 202, 149>>>>,
  <<"sha-512", 16777224, <<80, 29, 54, 209, 27, 14, 104, 162, 185, 1, 93, 217, 82, 129, 232, 49, 118, 121, 98, 121, 195, 163, 243, 247, 45, 198, 158, 185, 126, 191, 74, 128, 16, 61, 230, 35, 114, 159, 215, 186, 197, 31, 119, 43, 161, 134, 224, 167, 43, 239, 65, 22, 113, 171, 75, 134, 155, 87, 240, 100, 10, 235, 229, 43>>>>,
  <<"sha-512", 16781305, <<9, 208, 13, 215, 255, 125, 146, 230, 27, 119, 174, 3, 50, 112, 171, 59, 241, 95, 90, 150, 42, 200, 111, 0, 2, 243, 214, 200, 130, 82, 76, 153, 95, 26, 205, 200, 82, 85, 104, 26, 6, 104, 227, 181, 44, 226, 47, 211, 65, 229, 15, 251, 5, 233, 39, 17, 30, 181, 113, 136, 99, 31, 51, 164>>>>,
  <<"sha-512", 26909011, <<199, 155, 13, 247, 29, 255, 76, 4, 142, 42, 148, 191, 184, 202, 195, 75, 174, 143, 246, 102, 236, 131, 147, 154, 24, 252, 110, 71, 17, 18, 238, 234, 88, 56, 247, 223, 242, 223, 241, 69, 33, 93, 237, 102, 249, 121, 144, 233, 163, 15, 212, 128, 3, 144, 243, 27, 242, 223, 162, 246, 150, 127, 115, 234>>>>,
  <<"sha-512/224", 16777219, <<90, 90, 141, 78, 69, 66, 61, 177, 20, 134, 101, 41, 93, 221, 28, 220, 119, 198, 127, 8, 209, 81, 33, 125, 2, 213, 168, 148>>>>,
  <<"sha-512/224", 16781305, <<110, 51, 192, 161, 227, 227, 134, 79, 126, 223, 212, 170, 199, 206, 111, 176, 58, 235, 213, 212, 29, 230, 70, 39, 54, 232, 95, 146>>>>,
  <<"sha-512/224", 28318603, <<45, 118, 154, 243, 231, 84, 152, 93, 37, 252, 163, 59, 233, 167, 220, 173, 128, 45, 174, 204, 190, 142, 27, 93, 170, 82, 91, 127>>>>,
  <<"sha-512/256", 16777223, <<195, 34, 214, 200, 58, 246, 156, 150, 59, 9, 118, 145, 170, 162, 6, 234, 217, 207, 122, 67, 162, 118, 122, 41, 127, 31, 0, 253, 58, 112, 239, 249>>>>,
  <<"sha-512/256", 16781306, <<162, 28, 191, 184, 17, 2, 111, 55, 248, 128, 220, 231, 159, 24, 163, 61, 89, 122, 129, 27, 245, 232, 5, 98, 168, 236, 197, 111, 123, 186, 164, 34>>>>,
  <<"sha-512/256", 20834260, <<129, 229, 139, 26, 245, 89, 188, 182, 121, 171, 207, 62, 188, 109, 223, 96, 29, 133, 157, 207, 0, 104, 70, 138, 27, 64, 53, 186, 204, 4, 247, 36>>>>,
  <<"sha3-224", 16777222, <<75, 154, 98, 102, 63, 196, 18, 180, 52, 10, 155, 128, 40, 138, 136, 62, 230, 161, 228, 112, 230, 31, 74, 93, 218, 202, 141, 202>>>>,
  <<"sha3-224", 16781311, <<31, 71, 230, 128, 86, 110, 67, 253, 247, 169, 8, 34, 6, 100, 175, 0, 171, 198, 238, 29, 157, 85, 0, 161, 167, 242, 45, 18>>>>,
  <<"sha3-224", 27667225, <<171, 64, 244, 170, 42, 131, 99, 86, 73, 192, 176, 30, 161, 170, 6, 181, 4, 91, 77, 133, 17, 253, 165, 145, 150, 15, 52, 37>>>>,
  <<"sha3-256", 16777222, <<246, 137, 244, 166, 186, 133, 2, 250, 190, 70, 52, 183, 190, 92, 132, 103, 150, 6, 207, 39, 49, 221, 51, 128, 115, 140, 116, 194, 192, 153, 71, 135>>>>,
  <<"sha3-256", 16781305, <<71, 242, 255, 3, 232, 9, 113, 10, 210, 205, 211, 5, 83, 229, 196, 194, 101, 43, 16, 43, 133, 66, 57, 168, 243, 31, 194, 44, 157, 91, 130, 4>>>>,
  <<"sha3-256", 20805135, <<111, 27, 121, 143, 171, 18, 101, 175, 120, 241, 104, 58, 59, 201, 126, 17, 127, 243, 229, 136, 178, 131, 95, 156, 33, 4, 13, 51, 82, 144, 6, 19>>>>,
  <<"sha3-384", 16777220, <<91, 72, 226, 161, 82, 252, 229, 156, 54, 204, 207, 204, 249, 230, 2, 194, 88, 31, 61, 202, 21, 130, 70, 93, 42, 245, 212, 236, 208, 254, 118, 117, 225, 221, 115, 236, 149, 238, 64, 87, 34, 1, 123, 192, 61, 242, 43, 198>>>>,
  <<"sha3-384", 16781311, <<27, 204, 39, 226, 241, 5, 193, 29, 213, 55, 226, 15, 233, 55, 187, 198, 184, 75, 71, 21, 228, 72, 233, 130, 76, 54, 203, 229, 36, 163, 49, 117, 170, 242, 136, 209, 91, 255, 79, 54, 8, 127, 71, 242, 105, 79, 29, 83>>>>,
  <<"sha3-384", 26502396, <<118, 45, 210, 71, 234, 200, 166, 150, 48, 75, 101, 201, 18, 67, 80, 153, 210, 33, 224, 152, 225, 105, 250, 20, 248, 123, 122, 110, 61, 84, 212, 169, 28, 240, 221, 37, 190, 152, 248, 175, 18, 63, 48, 26, 153, 37, 76, 223>>>>,
  <<"sha3-512", 16777221, <<190, 161, 177, 79, 161, 88, 75, 93, 175, 130, 7, 50, 208, 9, 155, 63, 186, 125, 89, 10, 89, 0, 60, 161, 98, 153, 99, 84, 135, 91, 228, 97, 179, 174, 220, 80, 60, 167, 140, 218, 23, 78, 123, 133, 230, 23, 34, 69, 122, 120, 1, 54, 229, 240, 100, 127, 144, 41, 120, 132, 195, 7, 103, 115>>>>,
  <<"sha3-512", 16781306, <<163, 207, 9, 46, 234, 153, 181, 91, 168, 187, 219, 184, 182, 11, 31, 26, 25, 250, 41, 241, 21, 230, 250, 231, 68, 120, 24, 25, 138, 154, 254, 101, 132, 12, 12, 72, 33, 134, 33, 16, 115, 59, 128, 104, 135, 184, 43, 14, 0, 152, 126, 51, 160, 93, 86, 13, 60, 16, 130, 78, 42, 232, 123, 159>>>>,
  <<"sha3-512", 18957494, <<183, 211, 172, 131, 227, 131, 211, 184, 177, 95, 173, 22, 80, 91, 255, 17, 4, 60, 255, 29, 3, 225, 50, 168, 60, 20, 173, 43, 200, 37, 216, 200, 185, 98, 82, 60, 130, 119, 170, 183, 224, 106, 238, 244, 137, 179, 56, 181, 59, 138, 29, 15, 8, 91, 113, 141, 242, 238, 172, 141, 87, 213, 41, 27>>>>,
  <<"shake-128/32", 16777223, <<89, 157, 215, 161>>>>,
  <<"shake-128/32", 16781305, <<142, 80, 109, 239>>>>,
  <<"shake-128/32", 19340797, <<231, 188, 161, 28>>>>,
  <<"shake-128/64", 16777222, <<171, 230, 133, 133, 255, 239, 255, 175>>>>,
  <<"shake-128/64", 16781305, <<142, 80, 109, 239, 29, 191, 182, 250>>>>,
  <<"shake-128/64", 26009894, <<117, 103, 9, 192, 95, 148, 243, 191>>>>,
  <<"shake-128/128", 16777217, <<163, 100, 234, 71, 178, 34, 214, 160, 203, 50, 26, 248, 164, 136, 195, 223>>>>,
  <<"shake-128/128", 16781307, <<53, 23, 208, 90, 148, 190, 114, 45, 249, 72, 209, 6, 49, 231, 93, 18>>>>,
  <<"shake-128/128", 20190032, <<93, 86, 1, 98, 113, 52, 178, 202, 54, 166, 105, 161, 19, 135, 169, 189>>>>,
  <<"shake-128/256", 16777217, <<163, 100, 234, 71, 178, 34, 214, 160, 203, 50, 26, 248, 164, 136, 195, 223, 152, 123, 8, 104, 132, 109, 55, 162, 0, 45, 119, 110, 7, 66, 184, 31>>>>,
  <<"shake-128/256", 16781307, <<53, 23, 208, 90, 148, 190, 114, 45, 249, 72, 209, 6, 49, 231, 93, 18, 117, 65, 148, 253, 103, 220, 141, 91, 235, 116, 107, 21, 28, 4, 232, 66>>>>,
  <<"shake-128/256", 21773953, <<90, 115, 96, 227, 123, 195, 115, 241, 217, 72, 114, 146, 58, 204, 115, 1, 140, 206, 132, 86, 244, 238, 254, 120, 165, 120, 137, 19, 114, 142, 56, 210>>>>,
  <<"shake-128/512", 16777220, <<185, 36, 202, 41, 77, 3, 57, 130, 74, 227, 62, 233, 133, 10, 130, 7, 26, 252, 64, 216, 218, 229, 139, 79, 126, 21, 164, 80, 73, 196, 47, 202, 56, 99, 238, 175, 150, 96, 181, 132, 234, 135, 11, 177, 199, 75, 207, 233, 212, 237, 29, 42, 8, 18, 79, 108, 201, 246, 190, 155, 142, 217, 255, 73>>>>,
  <<"shake-128/512", 16781307, <<53, 23, 208, 90, 148, 190, 114, 45, 249, 72, 209, 6, 49, 231, 93, 18, 117, 65, 148, 253, 103, 220, 141, 91, 235, 116, 107, 21, 28, 4, 232, 66, 169, 4, 88, 208, 56, 76, 249, 207, 219, 80, 55, 103, 175, 16, 148, 129, 76, 133, 181, 164, 183, 149, 2, 58, 54, 5, 82, 146, 105, 90, 101, 157>>>>,
  <<"shake-128/512", 31415026, <<237, 209, 214, 7, 23, 4, 20, 126, 216, 167, 83, 251, 60, 5, 114, 242, 114, 225, 24, 144, 126, 84, 248, 41, 239, 104, 202, 80, 106, 235, 123, 66, 126, 167, 144, 163, 155, 206, 62, 174, 32, 102, 115, 164, 215, 188, 240, 48, 250, 15, 162, 228, 201, 1, 90, 239, 193, 187, 130, 110, 193, 90, 117, 11>>>>,
  <<"shake-128/1024", 16777222, <<171, 230, 133, 133, 255, 239, 255, 175, 129, 130, 76, 197, 53, 228, 223, 76, 65, 7, 179, 112, 201, 229, 82, 133, 19, 53, 209, 1, 89, 240, 206, 110, 206, 204, 181, 118, 247, 234, 93, 135, 128, 29, 30, 10, 140, 92, 174, 210, 210, 62, 242, 96, 104, 20, 169, 138, 63, 104, 9, 69, 111, 65, 133, 204, 44, 197, 218, 27, 44, 51, 37, 49, 168, 47, 68, 135, 86, 94, 244, 64, 221, 185, 23, 130, 233, 146, 138, 71, 131, 30, 93, 78, 186, 187, 167, 172, 170, 138, 132, 181, 201, 215, 70, 165, 52, 2, 99, 222, 238, 232, 239, 160, 247, 28, 117, 114, 212, 233, 62, 182, 160, 4, 45, 54, 87, 71, 40, 183>>>>,
  <<"shake-128/1024", 16781308, <<64, 137, 230, 103, 193, 251, 12, 152, 173, 10, 27, 128, 180, 199, 158, 7, 41, 20, 18, 116, 196, 224, 132, 192, 181, 202, 45, 167, 254, 146, 127, 73, 128, 20, 66, 29, 96, 240, 50, 204, 49, 36, 178, 153, 15, 240, 100, 51, 197, 138, 208, 41, 172, 248, 103, 74, 223, 48, 141, 94, 177, 136, 204, 200, 15, 9, 98, 150, 89, 66, 86, 133, 168, 57, 138, 66, 17, 106, 159, 208, 58, 144, 30, 35, 159, 252, 78, 62, 214, 209, 129, 101, 147, 132, 50, 105, 221, 12, 236, 249, 67, 12, 174, 236, 116, 250, 56, 195, 206, 87, 3, 157, 121, 244, 38, 204, 167, 107, 159, 164, 149, 231, 224, 191, 85, 255, 141, 216>>>>,
  <<"shake-128/1024", 29304739, <<85, 4, 127, 98, 109, 8, 81, 72, 31, 117, 246, 62, 18, 8, 27, 102, 219, 210, 45, 224, 164, 179, 91, 111, 27, 158, 196, 181, 201, 224, 218, 62, 71, 33, 125, 214, 11, 88, 51, 178, 197, 112, 70, 210, 113, 88, 170, 87, 98, 95, 255, 230, 47, 59, 166, 134, 166, 7, 71, 149, 203, 206, 12, 213, 20, 156, 234, 250, 240, 194, 197, 137, 212, 47, 50, 78, 50, 106, 245, 254, 116, 142, 146, 213, 185, 62, 35, 206, 233, 241, 10, 183, 2, 39, 158, 188, 18, 143, 201, 49, 254, 148, 11, 9, 235, 235, 193, 36, 71, 155, 254, 156, 20, 75, 60, 242, 244, 25, 70, 192, 137, 85, 247, 26, 7, 115, 204, 251>>>>,
  <<"shake-128/2048", 16777223, <<89, 157, 215, 161, 38, 95, 116, 30, 118, 123, 114, 3, 175, 72, 109, 159, 141, 84, 55, 205, 190, 160, 15, 189, 70, 195, 23, 165, 3, 249, 127, 147, 168, 202, 236, 109, 14, 176, 106, 78, 168, 11, 95, 118, 64, 168, 214, 24, 139, 181, 175, 71, 74, 82, 11, 207, 250, 191, 217, 170, 110, 169, 79, 88, 37, 147, 243, 175, 121, 174, 36, 71, 147, 241, 215, 136, 240, 156, 162, 200, 75, 203, 251, 128, 92, 168, 97, 236, 18, 203, 71, 3, 78, 228, 169, 250, 155, 196, 166, 109, 169, 47, 12, 223, 103, 61, 134, 119, 74, 99, 113, 162, 13, 136, 232, 9, 232, 196, 121, 222, 166, 105, 172, 172, 105, 170, 8, 130, 14, 62, 248, 167, 58, 67, 10, 149, 237, 78, 61, 174, 126, 176, 1, 64, 179, 112, 219, 215, 235, 135, 26, 243, 30, 199, 132, 157, 82, 21, 121, 208, 209, 129, 239, 141, 249, 67, 208, 202, 17, 203, 99, 76, 14, 18, 51, 214, 129, 13, 141, 14, 216, 168, 34, 141, 197, 147, 118, 77, 198, 76, 107, 79, 197, 108, 27, 3, 44, 249, 242, 218, 216, 27, 194, 181, 176, 25, 134, 24, 158, 87, 106, 235, 197, 69, 158, 30, 164, 50, 52, 165, 84, 7, 92, 50, 127, 234, 51, 232, 40, 240, 111, 156, 119, 45, 98, 0, 5, 13, 176, 159, 146, 127, 13, 95, 227, 149, 168, 38, 232, 162, 246, 89, 174, 250, 64, 74>>>>,
  <<"shake-128/2048", 16781311, <<34, 135, 48, 255, 222, 58, 62, 203, 218, 27, 0, 89, 211, 241, 246, 62, 168, 197, 135, 196, 243, 6, 71, 53, 172, 187, 199, 160, 125, 2, 214, 198, 136, 162, 207, 26, 41, 195, 44, 191, 96, 162, 118, 184, 131, 84, 248, 41, 189, 29, 158, 29, 181, 110, 149, 212, 189, 206, 197, 71, 38, 117, 168, 11, 115, 82, 161, 52, 158, 8, 12, 56, 55, 225, 30, 48, 164, 31, 139, 100, 165, 167, 65, 149, 243, 108, 137, 48, 171, 243, 128, 128, 112, 194, 74, 14, 234, 80, 205, 83, 40, 26, 88, 118, 14, 109, 60, 32, 69, 41, 141, 219, 104, 107, 156, 75, 240, 35, 179, 10, 98, 167, 62, 53, 150, 59, 193, 236, 144, 147, 79, 169, 199, 211, 246, 254, 58, 109, 5, 215, 161, 129, 158, 182, 95, 63, 218, 137, 176, 108, 200, 43, 42, 255, 170, 91, 153, 19, 18, 28, 25, 34, 233, 2, 199, 9, 120, 107, 170, 238, 48, 84, 78, 3, 240, 11, 27, 12, 3, 203, 125, 205, 126, 102, 71, 104, 191, 192, 206, 176, 52, 44, 127, 232, 39, 206, 35, 166, 217, 130, 200, 137, 117, 27, 162, 26, 238, 215, 24, 72, 147, 207, 112, 47, 151, 30, 106, 191, 198, 59, 212, 219, 1, 210, 12, 246, 160, 49, 75, 231, 36, 190, 179, 177, 110, 56, 76, 253, 79, 35, 109, 27, 240, 23, 149, 138, 164, 237, 249, 7, 43, 162, 147, 43, 199, 3>>>>,
  <<"shake-128/2048", 30200386, <<65, 52, 66, 82, 74, 163, 60, 230, 31, 186, 131, 177, 148, 13, 128, 241, 176, 176, 21, 165, 85, 90, 203, 187, 163, 33, 125, 37, 189, 180, 214, 44, 186, 151, 209, 68, 243, 42, 23, 20, 162, 229, 151, 42, 171, 27, 185, 55, 43, 182, 15, 31, 220, 19, 159, 153, 196, 238, 169, 70, 248, 200, 39, 105, 27, 63, 197, 123, 79, 168, 53, 4, 223, 65, 231, 81, 70, 35, 112, 14, 240, 96, 70, 145, 13, 8, 209, 152, 149, 105, 11, 105, 63, 124, 22, 215, 183, 92, 54, 128, 138, 145, 241, 73, 83, 5, 227, 51, 125, 26, 150, 131, 69, 220, 13, 58, 60, 112, 33, 170, 104, 34, 6, 73, 94, 130, 150, 70, 145, 22, 76, 207, 9, 114, 224, 111, 113, 238, 240, 153, 236, 122, 192, 242, 41, 120, 2, 58, 102, 44, 47, 132, 251, 60, 249, 233, 145, 189, 66, 188, 175, 130, 41, 34, 171, 255, 122, 24, 173, 140, 180, 201, 141, 50, 148, 200, 68, 135, 79, 77, 100, 116, 249, 239, 36, 237, 48, 125, 91, 236, 125, 109, 11, 102, 84, 178, 135, 208, 17, 18, 2, 21, 254, 98, 110, 124, 38, 227, 66, 246, 168, 70, 59, 133, 181, 98, 32, 127, 98, 157, 113, 93, 127, 225, 12, 104, 222, 169, 251, 15, 22, 146, 143, 43, 163, 222, 38, 168, 93, 6, 222, 51, 4, 34, 109, 129, 24, 48, 192, 23, 79, 92, 94, 98, 41, 151>>>>,
  <<"shake-256/32", 16777220, <<191, 252, 255, 149>>>>,
  <<"shake-256/32", 16781310, <<24, 13, 0, 31>>>>,
  <<"shake-256/32", 18437356, <<18, 235, 38, 116>>>>,
  <<"shake-256/64", 16777223, <<83, 11, 190, 200, 19, 219, 185, 29>>>>,
  <<"shake-256/64", 16781304, <<169, 9, 61, 150, 220, 31, 191, 253>>>>,
  <<"shake-256/64", 21426938, <<54, 41, 52, 6, 26, 155, 235, 160>>>>,
  <<"shake-256/128", 16777221, <<111, 56, 192, 7, 204, 118, 42, 173, 27, 201, 143, 65, 169, 130, 39, 56>>>>,
  <<"shake-256/128", 16781304, <<169, 9, 61, 150, 220, 31, 191, 253, 129, 163, 182, 167, 220, 72, 21, 20>>>>,
  <<"shake-256/128", 18420608, <<86, 167, 69, 129, 209, 38, 66, 10, 75, 203, 206, 143, 222, 81, 69, 181>>>>,
  <<"shake-256/256", 16777219, <<124, 41, 185, 166, 203, 57, 251, 120, 66, 154, 73, 69, 90, 172, 59, 50, 235, 148, 251, 177, 161, 150, 207, 186, 215, 121, 182, 43, 15, 23, 237, 220>>>>,
  <<"shake-256/256", 16781309, <<192, 191, 106, 198, 101, 146, 41, 95, 4, 153, 19, 230, 140, 20, 35, 135, 100, 240, 114, 50, 187, 21, 201, 8, 192, 140, 108, 133, 230, 160, 153, 186>>>>,
  <<"shake-256/256", 32621084, <<129, 166, 39, 190, 200, 79, 254, 187, 153, 58, 9, 64, 192, 158, 143, 0, 25, 205, 146, 108, 33, 165, 74, 226, 87, 211, 161, 38, 124, 144, 86, 145>>>>,
  <<"shake-256/512", 16777223, <<83, 11, 190, 200, 19, 219, 185, 29, 13, 104, 216, 120, 119, 78, 106, 27, 72, 25, 253, 109, 180, 239, 1, 48, 118, 118, 160, 203, 136, 46, 228, 223, 92, 232, 84, 16, 78, 187, 247, 163, 90, 198, 223, 178, 27, 138, 146, 85, 48, 159, 252, 43, 57, 116, 100, 65, 166, 33, 33, 179, 222, 47, 183, 173>>>>,
  <<"shake-256/512", 16781306, <<116, 196, 164, 84, 155, 25, 94, 184, 143, 207, 208, 137, 28, 202, 166, 116, 48, 51, 32, 128, 78, 162, 150, 8, 156, 52, 164, 233, 36, 49, 130, 36, 172, 220, 97, 197, 226, 21, 209, 4, 128, 52, 171, 108, 240, 240, 31, 131, 94, 242, 90, 29, 214, 56, 52, 22, 219, 250, 1, 207, 131, 202, 112, 114>>>>,
  <<"shake-256/512", 26231044, <<52, 234, 63, 160, 45, 224, 213, 24, 173, 98, 179, 10, 87, 102, 209, 216, 138, 154, 36, 163, 88, 52, 200, 225, 137, 172, 55, 208, 185, 209, 239, 193, 212, 44, 227, 23, 40, 193, 160, 93, 198, 238, 135, 4, 201, 12, 130, 182, 15, 239, 193, 244, 125, 77, 8, 47, 176, 243, 12, 179, 181, 158, 215, 252>>>>,
  <<"shake-256/1024", 16777221, <<111, 56, 192, 7, 204, 118, 42, 173, 27, 201, 143, 65, 169, 130, 39, 56, 14, 152, 241, 123, 225, 217, 147, 134, 233, 167, 88, 106, 24, 208, 182, 39, 43, 143, 32, 36, 207, 6, 88, 169, 189, 59, 132, 132, 51, 55, 242, 117, 0, 40, 144, 143, 96, 68, 49, 20, 25, 34, 237, 134, 164, 104, 140, 135, 170, 189, 180, 204, 8, 171, 23, 4, 127, 96, 152, 238, 46, 125, 217, 47, 89, 169, 182, 197, 161, 138, 69, 166, 26, 118, 123, 19, 182, 144, 98, 56, 81, 74, 253, 228, 108, 179, 58, 178, 228, 32, 175, 84, 155, 67, 102, 207, 72, 150, 38, 161, 43, 103, 114, 152, 6, 198, 56, 75, 247, 209, 248, 152>>>>,
  <<"shake-256/1024", 16781307, <<150, 28, 105, 229, 134, 96, 50, 169, 165, 30, 74, 218, 98, 95, 216, 153, 146, 163, 77, 141, 167, 106, 238, 41, 230, 3, 124, 161, 59, 132, 136, 117, 51, 188, 203, 227, 149, 254, 246, 126, 35, 232, 1, 234, 141, 17, 247, 149, 149, 201, 142, 226, 76, 10, 127, 201, 195, 112, 226, 85, 186, 105, 140, 172, 208, 156, 87, 153, 46, 208, 113, 116, 108, 81, 66, 14, 191, 57, 149, 14, 62, 11, 184, 82, 255, 123, 139, 64, 55, 186, 28, 191, 206, 84, 43, 212, 194, 152, 215, 214, 184, 200, 107, 158, 139, 146, 11, 238, 152, 125, 38, 182, 93, 122, 25, 31, 145, 233, 92, 122, 73, 113, 229, 62, 249, 78, 185, 26>>>>,
  <<"shake-256/1024", 25507040, <<239, 126, 56, 128, 38, 128, 239, 109, 80, 136, 164, 118, 158, 128, 17, 76, 110, 237, 58, 97, 24, 163, 56, 115, 214, 42, 161, 97, 229, 255, 130, 157, 103, 98, 3, 15, 62, 8, 31, 154, 191, 105, 229, 34, 89, 6, 3, 121, 198, 29, 188, 22, 59, 234, 90, 109, 251, 162, 255, 66, 45, 111, 186, 156, 236, 74, 64, 245, 141, 161, 241, 117, 202, 229, 37, 63, 79, 6, 212, 81, 109, 198, 157, 34, 30, 85, 184, 224, 112, 78, 209, 63, 87, 236, 230, 43, 233, 251, 234, 7, 229, 153, 90, 173, 183, 222, 159, 252, 109, 191, 156, 32, 249, 38, 158, 48, 128, 64, 113, 243, 142, 178, 199, 205, 86, 152, 254, 203>>>>,
  <<"shake-256/2048", 16777223, <<83, 11, 190, 200, 19, 219, 185, 29, 13, 104, 216, 120, 119, 78, 106, 27, 72, 25, 253, 109, 180, 239, 1, 48, 118, 118, 160, 203, 136, 46, 228, 223, 92, 232, 84, 16, 78, 187, 247, 163, 90, 198, 223, 178, 27, 138, 146, 85, 48, 159, 252, 43, 57, 116, 100, 65, 166, 33, 33, 179, 222, 47, 183, 173, 217, 27, 251, 202, 151, 15, 172, 141, 217, 99, 165, 118, 142, 25, 48, 109, 142, 61, 119, 91, 187, 115, 45, 49, 231, 102, 136, 173, 42, 187, 234, 37, 237, 244, 239, 47, 49, 243, 104, 188, 162, 228, 203, 63, 237, 181, 120, 3, 133, 64, 87, 204, 117, 161, 1, 211, 193, 242, 1, 11, 115, 127, 231, 49, 220, 210, 40, 82, 209, 212, 132, 108, 87, 149, 65, 35, 150, 209, 155, 89, 115, 249, 41, 129, 26, 10, 217, 94, 19, 96, 17, 101, 7, 103, 145, 85, 20, 140, 75, 128, 120, 127, 75, 121, 225, 254, 123, 193, 217, 49, 81, 250, 239, 73, 211, 191, 160, 170, 111, 188, 225, 171, 231, 159, 98, 145, 43, 58, 218, 53, 93, 100, 4, 135, 161, 237, 22, 220, 155, 2, 125, 113, 39, 144, 47, 137, 18, 184, 133, 43, 240, 11, 130, 255, 125, 167, 97, 107, 104, 217, 59, 76, 240, 227, 178, 116, 4, 91, 109, 128, 5, 70, 139, 237, 33, 34, 146, 62, 32, 144, 29, 53, 198, 204, 134, 155, 224, 234, 219, 96, 234, 135>>>>,
  <<"shake-256/2048", 16781308, <<128, 3, 161, 37, 219, 204, 112, 78, 140, 43, 30, 98, 31, 29, 166, 250, 202, 144, 45, 255, 236, 230, 2, 235, 247, 3, 175, 91, 120, 107, 91, 41, 112, 122, 2, 250, 84, 76, 168, 148, 111, 95, 212, 36, 163, 203, 239, 128, 153, 6, 129, 163, 114, 197, 92, 108, 77, 178, 171, 13, 215, 122, 117, 77, 98, 165, 104, 139, 122, 1, 51, 238, 137, 56, 61, 163, 236, 128, 155, 235, 162, 251, 247, 130, 180, 247, 176, 21, 33, 19, 178, 54, 140, 193, 216, 51, 163, 111, 165, 23, 188, 168, 96, 54, 62, 118, 39, 153, 32, 200, 86, 133, 147, 38, 8, 9, 49, 247, 166, 149, 15, 91, 140, 209, 110, 78, 108, 239, 13, 224, 7, 132, 118, 63, 185, 10, 5, 62, 112, 246, 204, 48, 203, 252, 147, 208, 142, 192, 67, 51, 125, 184, 34, 9, 13, 13, 45, 25, 153, 35, 246, 55, 209, 152, 33, 125, 185, 80, 35, 129, 64, 239, 188, 92, 173, 153, 182, 217, 0, 207, 149, 172, 73, 156, 148, 40, 73, 83, 174, 22, 119, 234, 114, 96, 148, 99, 242, 92, 204, 14, 190, 8, 62, 224, 75, 40, 197, 86, 4, 183, 91, 108, 129, 146, 88, 195, 55, 181, 175, 83, 62, 195, 24, 187, 194, 199, 16, 83, 237, 164, 26, 79, 36, 248, 23, 249, 0, 65, 9, 137, 177, 190, 94, 201, 235, 20, 111, 251, 18, 24, 215, 60, 232, 153, 21, 245>>>>,
  <<"shake-256/2048", 26871606, <<127, 120, 201, 19, 193, 177, 69, 214, 96, 184, 124, 215, 253, 59, 121, 141, 118, 133, 194, 5, 119, 118, 184, 57, 43, 148, 116, 210, 170, 53, 70, 117, 157, 80, 189, 235, 118, 146, 220, 4, 248, 58, 235, 111, 11, 17, 121, 239, 152, 25, 152, 155, 233, 32, 203, 163, 65, 253, 71, 146, 207, 247, 116, 99, 8, 163, 143, 26, 87, 229, 94, 124, 248, 29, 58, 201, 209, 161, 140, 160, 205, 160, 46, 29, 211, 159, 30, 166, 109, 5, 75, 198, 228, 32, 22, 204, 237, 57, 144, 151, 48, 254, 127, 13, 61, 99, 131, 137, 157, 116, 16, 77, 84, 8, 150, 225, 18, 225, 223, 8, 230, 90, 16, 186, 27, 38, 155, 229, 184, 60, 194, 203, 187, 142, 97, 114, 19, 149, 135, 124, 153, 187, 166, 177, 56, 252, 218, 106, 191, 170, 181, 151, 7, 226, 189, 122, 238, 52, 173, 255, 151, 33, 199, 155, 188, 76, 215, 253, 135, 190, 96, 223, 223, 215, 142, 127, 145, 73, 65, 237, 113, 142, 91, 147, 159, 187, 198, 133, 109, 152, 110, 43, 145, 52, 231, 233, 59, 23, 24, 238, 190, 55, 36, 138, 212, 242, 55, 61, 83, 115, 210, 229, 194, 116, 206, 32, 22, 209, 54, 148, 62, 44, 6, 29, 215, 136, 33, 20, 21, 125, 212, 236, 188, 86, 62, 154, 67, 192, 155, 41, 183, 175, 216, 251, 163, 46, 24, 71, 52, 40, 247, 243, 113, 172, 45, 80>>>>,
  <<"xxhash64", 16777224, <<55, 38, 96, 183, 6, 76, 226, 141>>>>,
  <<"xxhash64", 16781305, <<196, 42, 112, 186, 230, 66, 113, 224>>>>,
  <<"xxhash64", 20795108, <<218, 23, 133, 146, 172, 5, 84, 22>>>>,
  <<"xxhash32", 16777219, <<43, 46, 97, 132>>>>,
  <<"xxhash32", 16781309, <<56, 180, 25, 192>>>>,
  <<"xxhash32", 19299522, <<111, 191, 59, 245>>>>,
  <<"sha-256", 33554436, <<30, 135, 157, 88, 241, 61, 66, 254, 166, 103, 94, 157, 64, 26, 171, 6, 23, 210, 80, 184, 73, 84, 25, 36, 116, 119, 145, 49, 187, 192, 244, 126>>>>,
  <<"sha-256", 33558520, <<203, 40, 186, 127, 114, 65, 133, 251, 102, 17, 245, 68, 200, 245, 68, 66, 10, 143, 209, 132, 26, 174, 29, 177, 109, 238, 47, 78, 135, 59, 12, 154>>>>,
  <<"sha-256", 33570816, <<221, 86, 154, 126, 226, 76, 110, 131, 170, 169, 197, 133, 189, 178, 182, 72, 157, 60, 176, 10, 33, 70, 189, 140, 36, 64, 90, 162, 141, 109, 40, 179>>>>,
  <<"sha-512", 33554440, <<145, 74, 160, 94, 54, 46, 120, 66, 248, 205, 14, 38, 144, 2, 130, 153, 113, 30, 8, 18, 14, 200, 58, 253, 58, 232, 89, 43, 67, 241, 90, 12, 174, 51, 147, 35, 26, 0, 36, 9, 143, 145, 252, 43, 235, 79, 83, 93, 101, 237, 240, 25, 157, 111, 247, 233, 106, 15, 225, 34, 95, 227, 226, 96>>>>,
  <<"sha-512", 33558522, <<10, 5, 134, 71, 8, 246, 192, 250, 6, 189, 116, 187, 232, 235, 44, 7, 213, 126, 216, 216, 99, 244, 167, 146, 4, 167, 68, 174, 55, 136, 175, 104, 221, 230, 29, 166, 70, 205, 218, 84, 205, 125, 42, 199, 138, 46, 95, 249, 187, 111, 11, 139, 223, 15, 119, 29, 133, 162, 109, 228, 186, 146, 180, 210>>>>,
  <<"sha-512", 33587200, <<245, 141, 113, 52, 187, 188, 204, 240, 219, 140, 220, 82, 250, 183, 90, 219, 192, 67, 157, 161, 249, 172, 119, 27, 115, 124, 57, 130, 212, 176, 15, 60, 133, 121, 69, 154, 83, 87, 20, 92, 134, 155, 134, 226, 71, 61, 120, 224, 50, 74, 216, 69, 152, 70, 141, 199, 148, 87, 188, 46, 66, 138, 253, 106>>>>,
  <<"sha3-256", 33554439, <<58, 187, 88, 215, 6, 144, 110, 245, 156, 120, 185, 58, 227, 122, 35, 203, 134, 27, 247, 116, 128, 63, 202, 164, 145, 147, 139, 225, 82, 208, 192, 129>>>>,
  <<"sha3-256", 33558525, <<207, 187, 187, 79, 36, 231, 175, 52, 115, 246, 55, 86, 24, 179, 45, 37, 192, 6, 118, 97, 62, 180, 136, 245, 135, 219, 131, 79, 89, 114, 130, 34>>>>,
  <<"sha3-256", 33570816, <<117, 118, 79, 183, 32, 217, 77, 218, 146, 185, 179, 184, 105, 113, 88, 252, 109, 116, 96, 147, 165, 47, 16, 199, 115, 202, 206, 32, 220, 247, 200, 116>>>>,
  <<"shake-128/256", 33554436, <<245, 184, 125, 244, 244, 22, 239, 73, 74, 189, 151, 94, 82, 139, 93, 246, 11, 113, 88, 180, 222, 227, 231, 87, 206, 30, 83, 115, 240, 21, 7, 16>>>>,
  <<"shake-128/256", 33558526, <<123, 48, 236, 110, 71, 199, 53, 2, 97, 53, 62, 78, 107, 42, 194, 63, 101, 138, 158, 45, 232, 25, 155, 107, 78, 216, 135, 67, 70, 197, 207, 113>>>>,
  <<"shake-128/256", 33566720, <<97, 193, 123, 54, 254, 204, 150, 113, 229, 123, 235, 26, 57, 129, 158, 72, 46, 236, 25, 159, 38, 26, 0, 219, 158, 206, 181, 57, 109, 15, 14, 57>>>>,
  <<"xxhash64", 33554438, <<114, 88, 89, 214, 2, 133, 242, 252>>>>,
  <<"xxhash64", 33558526, <<117, 236, 13, 214, 170, 41, 177, 44>>>>,
  <<"xxhash64", 33579008, <<23, 191, 66, 198, 56, 136, 209, 21>>>>,
  <<"xxhash32", 33554436, <<167, 31, 41, 88>>>>,
  <<"xxhash32", 33558522, <<79, 103, 168, 191>>>>,
  <<"xxhash32", 33574912, <<19, 118, 35, 61>>>>,
  <<"sha-256", 67108868, <<227, 119, 152, 194, 5, 15, 160, 205, 115, 66, 73, 207, 204, 173, 109, 167, 79, 100, 226, 124, 177, 42, 81, 183, 204, 162, 7, 18, 110, 105, 109, 234>>>>,
  <<"sha-256", 67112959, <<199, 67, 254, 185, 11, 155, 46, 202, 64, 198, 188, 222, 158, 191, 120, 139, 225, 92, 142, 166, 176, 88, 60, 224, 198, 94, 97, 223, 198, 181, 62, 235>>>>,
  <<"sha-256", 67137536, <<68, 107, 166, 226, 175, 238, 61, 162, 102, 132, 65, 186, 156, 97, 218, 57, 50, 149, 248, 3, 162, 25, 147, 188, 33, 14, 98, 151, 45, 83, 230, 174>>>>,
  <<"sha-512", 67108871, <<18, 133, 124, 67, 225, 250, 88, 34, 45, 140, 108, 191, 139, 140, 14, 67, 255, 26, 136, 148, 195, 68, 220, 31, 211, 52, 38, 3, 148, 18, 35, 40, 198, 106, 188, 252, 45, 146, 166, 147, 95, 145, 27, 149, 247, 126, 248, 169, 159, 179, 151, 178, 186, 217, 224, 226, 137, 33, 219, 131, 139, 118, 82, 214>>>>,
  <<"sha-512", 67112953, <<156, 178, 190, 144, 105, 133, 173, 20, 99, 176, 70, 125, 159, 171, 21, 251, 59, 23, 155, 149, 79, 93, 136, 147, 143, 227, 52, 188, 205, 222, 188, 100, 48, 27, 195, 233, 75, 41, 16, 14, 155, 231, 20, 4, 216, 137, 108, 27, 103, 74, 83, 242, 76, 222, 64, 117, 8, 237, 89, 122, 243, 213, 73, 146>>>>,
  <<"sha-512", 67125248, <<130, 232, 205, 22, 238, 82, 80, 239, 164, 229, 215, 186, 60, 195, 42, 242, 108, 110, 131, 93, 86, 26, 49, 205, 141, 255, 14, 14, 205, 244, 81, 36, 64, 178, 123, 130, 221, 31, 39, 151, 167, 127, 129, 7, 96, 247, 187, 97, 184, 109, 244, 187, 77, 133, 212, 93, 42, 73, 5, 137, 133, 124, 217, 72>>>>,
  <<"sha3-256", 67108871, <<4, 206, 115, 81, 8, 71, 247, 4, 111, 246, 35, 116, 38, 74, 174, 113, 177, 70, 159, 128, 33, 28, 81, 49, 114, 98, 198, 253, 41, 92, 50, 228>>>>,
  <<"sha3-256", 67112955, <<111, 84, 202, 183, 37, 221, 114, 99, 103, 252, 166, 224, 228, 198, 55, 254, 207, 17, 151, 98, 73, 251, 98, 250, 4, 43, 237, 240, 190, 148, 55, 189>>>>,
  <<"sha3-256", 67133440, <<45, 121, 133, 50, 191, 17, 243, 63, 116, 77, 48, 99, 40, 166, 60, 185, 35, 11, 113, 122, 53, 101, 52, 68, 47, 92, 21, 140, 63, 62, 195, 97>>>>,
  <<"shake-128/256", 67108865, <<6, 15, 55, 229, 75, 167, 98, 174, 25, 5, 80, 171, 222, 6, 186, 151, 152, 97, 100, 210, 81, 103, 89, 67, 41, 181, 161, 163, 154, 77, 13, 135>>>>,
  <<"shake-128/256", 67112952, <<192, 184, 65, 244, 221, 248, 181, 163, 112, 91, 222, 18, 235, 255, 204, 203, 46, 199, 240, 225, 173, 25, 69, 57, 89, 212, 66, 225, 110, 170, 178, 216>>>>,
  <<"shake-128/256", 67129344, <<119, 253, 79, 53, 240, 213, 144, 207, 13, 129, 187, 118, 129, 170, 76, 67, 71, 200, 59, 163, 146, 58, 240, 121, 133, 214, 200, 30, 202, 25, 117, 61>>>>,
  <<"xxhash64", 67108870, <<229, 244, 63, 115, 216, 199, 218, 177>>>>,
  <<"xxhash64", 67112957, <<145, 86, 140, 97, 112, 214, 63, 34>>>>,
  <<"xxhash64", 67125248, <<192, 22, 57, 166, 154, 204, 23, 186>>>>,
  <<"xxhash32", 67108866, <<101, 212, 199, 37>>>>,
  <<"xxhash32", 67112955, <<5, 155, 157, 58>>>>,
  <<"xxhash32", 67125248, <<165, 89, 49, 77>>>>,
  <<"sha-256", 134217735, <<194, 228, 3, 193, 250, 194, 254, 189, 181, 189, 222, 1, 102, 166, 157, 243, 65, 229, 245, 240, 191, 76, 49, 8, 235, 125, 93, 212, 244, 41, 168, 20>>>>,
  <<"sha-256", 134221817, <<101, 38, 181, 252, 39, 38, 207, 63, 0, 49, 85, 79, 245, 134, 7, 175, 144, 122, 237, 153, 21, 136, 227, 164, 213, 246, 27, 6, 214, 25, 126, 87>>>>,
  <<"sha-256", 134250496, <<14, 59, 233, 32, 161, 119, 150, 16, 7, 184, 208, 66, 72, 164, 108, 135, 14, 79, 248, 17, 212, 95, 251, 228, 15, 245, 175, 134, 0, 198, 123, 75>>>>,
  <<"sha-512", 134217735, <<209, 238, 75, 172, 232, 161, 231, 229, 37, 126, 216, 23, 36, 114, 180, 197, 253, 86, 172, 145, 21, 1, 91, 142, 191, 188, 186, 72, 44, 246, 225, 71, 253, 30, 203, 54, 53, 62, 8, 153, 84, 160, 133, 205, 9, 238, 13, 24, 196, 101, 242, 31, 169, 18, 41, 116, 176, 161, 47, 30, 18, 93, 77, 9>>>>,
  <<"sha-512", 134221819, <<92, 51, 30, 197, 199, 142, 142, 37, 140, 19, 117, 234, 223, 135, 157, 5, 79, 4, 9, 63, 181, 82, 48, 54, 24, 233, 128, 46, 38, 89, 92, 180, 114, 174, 94, 225, 14, 48, 20, 97, 17, 171, 186, 33, 208, 242, 209, 167, 11, 10, 199, 222, 197, 58, 81, 145, 46, 156, 188, 36, 170, 200, 140, 30>>>>,
  <<"sha-512", 134221824, <<96, 124, 23, 57, 140, 248, 108, 247, 0, 116, 69, 38, 183, 245, 202, 55, 156, 12, 161, 8, 14, 182, 67, 80, 231, 204, 95, 96, 190, 18, 56, 35, 93, 172, 63, 36, 57, 172, 154, 36, 118, 173, 6, 147, 27, 137, 239, 163, 19, 247, 251, 130, 44, 94, 42, 105, 222, 30, 169, 77, 247, 126, 85, 229>>>>,
  <<"sha3-256", 134217731, <<92, 224, 169, 129, 201, 146, 71, 245, 225, 232, 165, 7, 189, 96, 201, 112, 89, 108, 192, 91, 128, 66, 91, 115, 178, 125, 122, 218, 93, 39, 135, 228>>>>,
  <<"sha3-256", 134221823, <<187, 106, 172, 141, 82, 179, 209, 117, 203, 142, 189, 184, 72, 220, 43, 27, 183, 48, 31, 228, 151, 169, 111, 188, 226, 187, 117, 70, 178, 134, 83, 157>>>>,
  <<"sha3-256", 134246400, <<236, 11, 85, 12, 200, 68, 102, 5, 94, 141, 247, 68, 230, 225, 7, 155, 198, 49, 108, 42, 0, 192, 27, 198, 53, 236, 128, 74, 122, 133, 60, 44>>>>,
  <<"shake-128/256", 134217736, <<148, 61, 7, 34, 196, 193, 120, 198, 240, 245, 216, 112, 185, 217, 81, 224, 6, 240, 18, 21, 170, 96, 113, 9, 104, 61, 10, 68, 180, 23, 9, 186>>>>,
  <<"shake-128/256", 134221816, <<46, 87, 238, 254, 150, 152, 249, 34, 204, 72, 179, 66, 116, 82, 17, 140, 234, 180, 241, 150, 250, 233, 155, 7, 222, 215, 62, 113, 12, 98, 181, 124>>>>,
  <<"shake-128/256", 134221824, <<57, 217, 114, 43, 5, 220, 244, 97, 11, 120, 41, 136, 214, 129, 29, 201, 174, 221, 228, 223, 134, 178, 235, 35, 89, 209, 15, 175, 57, 227, 219, 200>>>>,
  <<"xxhash64", 134217730, <<85, 203, 4, 232, 70, 230, 125, 78>>>>,
  <<"xxhash64", 134221817, <<196, 203, 119, 4, 23, 222, 43, 185>>>>,
  <<"xxhash64", 134250496, <<38, 110, 85, 235, 33, 244, 178, 72>>>>,
  <<"xxhash32", 134217736, <<194, 238, 87, 12>>>>,
  <<"xxhash32", 134221820, <<53, 176, 108, 64>>>>,
  <<"xxhash32", 134225920, <<250, 165, 202, 194>>>>}
==============================================================================
