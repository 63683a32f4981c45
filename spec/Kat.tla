-------------------------------- MODULE Kat --------------------------------
(* Known answers from independent implementations (OpenSSL, reference       *)
(* xxHash), used by SelfTest.tla.                                           *)
\* <<name, param, n, digest>> for the message m[i] = (7i + 1) mod 256, i < n
Kats == <<
  <<"sha224", 0, 0, <<209, 74, 2, 140, 42, 58, 43, 201, 71, 97, 2, 187, 40, 130, 52, 196, 21, 162, 176, 31, 130, 142, 166, 42, 197, 179, 228, 47>>>>,
  <<"sha224", 0, 1, <<80, 90, 198, 87, 180, 0, 69, 46, 150, 33, 105, 216, 178, 232, 47, 86, 142, 204, 236, 117, 170, 47, 139, 85, 90, 164, 78, 152>>>>,
  <<"sha224", 0, 3, <<216, 14, 114, 44, 7, 75, 77, 75, 120, 195, 84, 215, 141, 251, 74, 114, 226, 3, 236, 115, 129, 204, 98, 190, 131, 127, 225, 27>>>>,
  <<"sha224", 0, 23, <<249, 54, 220, 35, 57, 49, 104, 103, 72, 42, 73, 240, 120, 68, 106, 115, 6, 190, 29, 37, 55, 96, 39, 216, 173, 104, 93, 245>>>>,
  <<"sha224", 0, 63, <<25, 239, 130, 137, 195, 65, 48, 103, 204, 112, 124, 72, 1, 188, 14, 231, 187, 81, 58, 228, 242, 207, 72, 68, 0, 56, 7, 198>>>>,
  <<"sha224", 0, 64, <<247, 235, 226, 202, 166, 173, 248, 2, 66, 68, 20, 237, 154, 227, 209, 136, 122, 31, 102, 43, 86, 112, 103, 4, 237, 181, 64, 39>>>>,
  <<"sha224", 0, 65, <<219, 57, 188, 152, 231, 133, 192, 179, 12, 208, 37, 137, 148, 16, 155, 122, 12, 156, 163, 16, 237, 17, 70, 213, 14, 206, 0, 248>>>>,
  <<"sha224", 0, 133, <<89, 231, 19, 140, 253, 177, 164, 153, 229, 129, 162, 87, 162, 14, 199, 232, 166, 113, 93, 165, 86, 201, 176, 120, 180, 149, 92, 162>>>>,
  <<"sha224", 0, 300, <<44, 186, 94, 112, 12, 13, 139, 121, 233, 19, 222, 129, 129, 222, 108, 81, 84, 3, 154, 200, 87, 219, 224, 143, 133, 87, 21, 140>>>>,
  <<"sha256", 0, 0, <<227, 176, 196, 66, 152, 252, 28, 20, 154, 251, 244, 200, 153, 111, 185, 36, 39, 174, 65, 228, 100, 155, 147, 76, 164, 149, 153, 27, 120, 82, 184, 85>>>>,
  <<"sha256", 0, 1, <<75, 245, 18, 47, 52, 69, 84, 197, 59, 222, 46, 187, 140, 210, 183, 227, 209, 96, 10, 214, 49, 195, 133, 165, 215, 204, 226, 60, 119, 133, 69, 154>>>>,
  <<"sha256", 0, 3, <<206, 86, 44, 103, 110, 167, 171, 169, 129, 47, 84, 219, 20, 107, 0, 150, 1, 27, 243, 228, 35, 237, 251, 10, 111, 143, 178, 176, 38, 116, 168, 1>>>>,
  <<"sha256", 0, 23, <<237, 114, 0, 218, 33, 162, 46, 84, 203, 165, 131, 44, 153, 115, 132, 231, 70, 150, 239, 110, 130, 107, 182, 28, 73, 53, 201, 53, 183, 10, 151, 81>>>>,
  <<"sha256", 0, 63, <<187, 186, 153, 45, 44, 133, 175, 150, 15, 178, 152, 122, 31, 208, 94, 10, 168, 42, 61, 179, 199, 64, 221, 137, 130, 169, 226, 115, 183, 94, 54, 163>>>>,
  <<"sha256", 0, 64, <<102, 189, 70, 51, 237, 111, 113, 196, 236, 250, 71, 99, 191, 123, 161, 200, 236, 118, 18, 222, 154, 166, 192, 87, 138, 123, 103, 82, 7, 199, 30, 11>>>>,
  <<"sha256", 0, 65, <<159, 125, 196, 113, 7, 183, 80, 161, 243, 211, 93, 181, 217, 84, 127, 36, 239, 64, 218, 91, 115, 27, 149, 64, 212, 244, 55, 16, 161, 84, 246, 201>>>>,
  <<"sha256", 0, 133, <<231, 127, 47, 12, 79, 182, 160, 70, 43, 177, 249, 44, 30, 106, 78, 0, 173, 3, 75, 31, 123, 28, 30, 112, 85, 109, 216, 76, 251, 43, 225, 66>>>>,
  <<"sha256", 0, 300, <<177, 179, 111, 81, 245, 20, 209, 28, 108, 211, 169, 101, 99, 39, 241, 128, 32, 157, 80, 57, 97, 255, 6, 22, 219, 70, 207, 136, 146, 29, 235, 40>>>>,
  <<"sha384", 0, 0, <<56, 176, 96, 167, 81, 172, 150, 56, 76, 217, 50, 126, 177, 177, 227, 106, 33, 253, 183, 17, 20, 190, 7, 67, 76, 12, 199, 191, 99, 246, 225, 218, 39, 78, 222, 191, 231, 111, 101, 251, 213, 26, 210, 241, 72, 152, 185, 91>>>>,
  <<"sha384", 0, 1, <<141, 44, 232, 125, 134, 245, 95, 207, 171, 119, 10, 4, 123, 9, 13, 162, 50, 112, 250, 32, 104, 50, 223, 234, 126, 12, 148, 111, 255, 69, 31, 129, 154, 221, 36, 35, 116, 190, 85, 27, 13, 99, 24, 237, 108, 125, 65, 216>>>>,
  <<"sha384", 0, 3, <<122, 155, 44, 17, 138, 38, 183, 177, 74, 35, 136, 45, 161, 49, 28, 173, 104, 75, 94, 156, 101, 235, 207, 227, 247, 227, 181, 215, 240, 53, 217, 152, 23, 192, 200, 140, 102, 18, 190, 87, 106, 179, 14, 82, 200, 254, 230, 6>>>>,
  <<"sha384", 0, 55, <<255, 136, 65, 215, 38, 97, 107, 69, 94, 194, 218, 232, 215, 200, 226, 200, 207, 153, 32, 129, 104, 251, 167, 111, 99, 109, 55, 49, 101, 129, 35, 28, 92, 75, 173, 123, 124, 48, 213, 77, 181, 209, 168, 88, 237, 166, 89, 37>>>>,
  <<"sha384", 0, 127, <<113, 79, 165, 149, 237, 51, 20, 140, 89, 228, 105, 239, 4, 35, 70, 39, 73, 185, 83, 105, 138, 170, 177, 73, 30, 209, 1, 235, 36, 185, 233, 166, 179, 164, 230, 213, 91, 14, 241, 78, 225, 223, 240, 44, 193, 94, 161, 3>>>>,
  <<"sha384", 0, 128, <<20, 122, 226, 125, 178, 253, 94, 67, 129, 194, 25, 131, 231, 83, 216, 247, 97, 25, 15, 172, 101, 168, 51, 116, 111, 242, 85, 138, 188, 156, 50, 68, 39, 155, 140, 136, 5, 55, 202, 41, 144, 170, 206, 231, 191, 32, 53, 142>>>>,
  <<"sha384", 0, 129, <<186, 145, 198, 164, 168, 134, 3, 98, 148, 33, 32, 82, 127, 243, 154, 154, 21, 220, 130, 20, 52, 208, 213, 28, 178, 90, 150, 237, 144, 137, 15, 217, 64, 182, 255, 158, 161, 123, 70, 149, 81, 220, 167, 208, 129, 250, 43, 126>>>>,
  <<"sha384", 0, 261, <<238, 136, 156, 227, 77, 26, 142, 250, 120, 4, 19, 210, 25, 186, 53, 161, 224, 180, 238, 206, 98, 79, 255, 214, 207, 211, 214, 219, 142, 198, 1, 89, 82, 233, 92, 152, 87, 128, 88, 114, 69, 219, 216, 217, 236, 225, 109, 53>>>>,
  <<"sha384", 0, 300, <<48, 99, 207, 158, 6, 175, 15, 75, 38, 97, 42, 33, 22, 26, 149, 154, 112, 54, 240, 148, 114, 119, 244, 38, 73, 104, 112, 104, 174, 91, 104, 61, 182, 69, 213, 44, 71, 14, 243, 118, 73, 221, 235, 99, 190, 19, 178, 147>>>>,
  <<"sha512", 0, 0, <<207, 131, 225, 53, 126, 239, 184, 189, 241, 84, 40, 80, 214, 109, 128, 7, 214, 32, 228, 5, 11, 87, 21, 220, 131, 244, 169, 33, 211, 108, 233, 206, 71, 208, 209, 60, 93, 133, 242, 176, 255, 131, 24, 210, 135, 126, 236, 47, 99, 185, 49, 189, 71, 65, 122, 129, 165, 56, 50, 122, 249, 39, 218, 62>>>>,
  <<"sha512", 0, 1, <<123, 84, 182, 104, 54, 193, 251, 221, 19, 210, 68, 29, 158, 20, 52, 220, 98, 202, 103, 127, 182, 143, 95, 230, 106, 70, 75, 170, 222, 205, 189, 0, 87, 111, 141, 107, 90, 195, 188, 200, 8, 68, 183, 213, 11, 28, 198, 96, 52, 68, 187, 231, 207, 207, 143, 192, 170, 30, 227, 198, 54, 217, 227, 57>>>>,
  <<"sha512", 0, 3, <<227, 232, 17, 179, 153, 58, 102, 45, 155, 155, 98, 82, 8, 98, 104, 54, 236, 104, 42, 177, 30, 107, 102, 145, 254, 199, 98, 179, 165, 74, 173, 62, 8, 243, 231, 234, 237, 69, 132, 50, 125, 225, 22, 134, 33, 23, 154, 246, 35, 187, 226, 106, 203, 144, 125, 50, 121, 199, 173, 20, 225, 164, 233, 126>>>>,
  <<"sha512", 0, 55, <<68, 246, 212, 15, 61, 193, 33, 169, 128, 67, 161, 119, 29, 85, 101, 13, 100, 166, 241, 150, 7, 139, 238, 221, 156, 108, 166, 254, 115, 1, 22, 102, 136, 191, 155, 92, 180, 197, 5, 125, 247, 52, 86, 101, 239, 127, 26, 79, 253, 221, 7, 67, 97, 93, 158, 206, 204, 168, 17, 211, 4, 226, 175, 211>>>>,
  <<"sha512", 0, 127, <<163, 21, 145, 12, 183, 129, 42, 142, 102, 216, 124, 12, 73, 164, 45, 147, 219, 233, 123, 240, 36, 14, 233, 149, 121, 34, 146, 197, 41, 37, 109, 147, 244, 1, 153, 165, 155, 63, 98, 102, 52, 63, 48, 38, 81, 254, 161, 88, 158, 32, 64, 162, 243, 117, 97, 38, 211, 254, 79, 66, 26, 114, 7, 157>>>>,
  <<"sha512", 0, 128, <<49, 243, 58, 82, 179, 109, 194, 231, 12, 131, 182, 4, 250, 153, 154, 92, 171, 243, 59, 247, 14, 69, 86, 251, 237, 123, 255, 16, 135, 12, 27, 123, 36, 29, 211, 241, 93, 26, 222, 36, 89, 159, 6, 143, 197, 138, 181, 30, 0, 40, 176, 240, 201, 136, 149, 194, 51, 88, 232, 222, 224, 50, 206, 6>>>>,
  <<"sha512", 0, 129, <<116, 143, 236, 50, 128, 201, 22, 81, 153, 248, 194, 96, 232, 126, 234, 97, 203, 190, 27, 35, 239, 21, 103, 194, 32, 223, 101, 179, 126, 63, 204, 237, 21, 250, 127, 99, 201, 163, 129, 253, 227, 141, 221, 78, 178, 176, 155, 103, 247, 125, 3, 197, 224, 166, 57, 180, 135, 232, 196, 131, 67, 89, 12, 151>>>>,
  <<"sha512", 0, 261, <<242, 40, 16, 171, 84, 28, 145, 45, 137, 215, 74, 234, 128, 182, 35, 75, 143, 126, 98, 74, 45, 110, 195, 33, 136, 148, 168, 215, 237, 251, 61, 62, 221, 16, 45, 218, 213, 131, 48, 21, 227, 58, 203, 76, 126, 31, 34, 218, 158, 102, 215, 62, 142, 115, 208, 135, 94, 212, 227, 234, 25, 162, 30, 81>>>>,
  <<"sha512", 0, 300, <<35, 59, 60, 241, 246, 157, 92, 244, 78, 163, 172, 26, 182, 195, 221, 42, 8, 167, 145, 252, 214, 247, 95, 123, 119, 59, 224, 169, 17, 107, 168, 48, 191, 29, 249, 174, 208, 194, 227, 107, 163, 219, 168, 191, 4, 206, 36, 131, 14, 66, 14, 115, 50, 151, 176, 208, 136, 67, 133, 137, 106, 84, 161, 153>>>>,
  <<"sha3_224", 0, 0, <<107, 78, 3, 66, 54, 103, 219, 183, 59, 110, 21, 69, 79, 14, 177, 171, 212, 89, 127, 154, 27, 7, 142, 63, 91, 90, 107, 199>>>>,
  <<"sha3_224", 0, 1, <<72, 130, 134, 217, 211, 39, 22, 229, 136, 30, 161, 238, 81, 243, 109, 54, 96, 215, 15, 13, 176, 59, 63, 97, 44, 233, 237, 164>>>>,
  <<"sha3_224", 0, 3, <<171, 148, 136, 86, 234, 134, 242, 129, 221, 223, 62, 88, 162, 63, 89, 83, 33, 160, 129, 139, 58, 99, 74, 59, 77, 148, 46, 176>>>>,
  <<"sha3_224", 0, 63, <<232, 184, 239, 3, 164, 226, 148, 145, 114, 240, 151, 97, 69, 161, 103, 190, 91, 143, 221, 94, 148, 7, 181, 23, 107, 27, 79, 52>>>>,
  <<"sha3_224", 0, 143, <<194, 169, 48, 159, 198, 81, 93, 159, 190, 94, 247, 163, 224, 86, 77, 182, 36, 221, 9, 185, 41, 202, 43, 31, 250, 24, 129, 42>>>>,
  <<"sha3_224", 0, 144, <<94, 243, 182, 153, 124, 38, 205, 128, 133, 26, 160, 242, 232, 205, 69, 9, 47, 87, 153, 251, 52, 167, 17, 8, 208, 231, 178, 144>>>>,
  <<"sha3_224", 0, 145, <<195, 202, 127, 162, 196, 103, 43, 193, 164, 93, 206, 215, 100, 79, 192, 178, 200, 0, 80, 253, 203, 20, 30, 111, 67, 87, 196, 147>>>>,
  <<"sha3_224", 0, 293, <<246, 33, 83, 134, 90, 166, 130, 16, 128, 202, 80, 75, 180, 59, 14, 217, 152, 141, 1, 63, 206, 44, 109, 180, 102, 49, 32, 54>>>>,
  <<"sha3_224", 0, 300, <<182, 155, 242, 10, 122, 214, 35, 56, 153, 120, 204, 48, 202, 80, 210, 204, 150, 210, 191, 219, 146, 133, 145, 190, 104, 181, 47, 143>>>>,
  <<"sha3_256", 0, 0, <<167, 255, 198, 248, 191, 30, 215, 102, 81, 193, 71, 86, 160, 97, 214, 98, 245, 128, 255, 77, 228, 59, 73, 250, 130, 216, 10, 75, 128, 248, 67, 74>>>>,
  <<"sha3_256", 0, 1, <<39, 103, 241, 92, 138, 242, 242, 199, 34, 93, 82, 115, 253, 214, 131, 237, 199, 20, 17, 10, 152, 125, 16, 84, 105, 124, 52, 138, 237, 78, 108, 199>>>>,
  <<"sha3_256", 0, 3, <<135, 0, 111, 196, 27, 56, 115, 91, 159, 2, 200, 4, 54, 123, 93, 183, 82, 139, 90, 40, 0, 79, 226, 18, 203, 201, 47, 168, 23, 178, 210, 177>>>>,
  <<"sha3_256", 0, 59, <<89, 93, 23, 162, 158, 145, 43, 154, 135, 215, 188, 138, 58, 57, 61, 113, 249, 195, 142, 158, 206, 203, 27, 249, 157, 43, 8, 47, 150, 128, 27, 13>>>>,
  <<"sha3_256", 0, 135, <<100, 204, 211, 0, 193, 207, 61, 56, 70, 4, 107, 213, 136, 161, 97, 62, 91, 166, 25, 192, 157, 69, 212, 183, 204, 154, 250, 9, 58, 242, 158, 25>>>>,
  <<"sha3_256", 0, 136, <<241, 6, 209, 2, 74, 133, 92, 106, 32, 211, 0, 187, 83, 236, 84, 114, 161, 186, 225, 38, 250, 99, 15, 238, 120, 33, 155, 81, 173, 215, 215, 104>>>>,
  <<"sha3_256", 0, 137, <<250, 77, 11, 1, 65, 236, 44, 105, 165, 220, 49, 78, 214, 17, 160, 129, 155, 146, 14, 149, 209, 61, 88, 109, 248, 159, 55, 8, 9, 233, 70, 90>>>>,
  <<"sha3_256", 0, 277, <<158, 133, 229, 246, 211, 178, 212, 162, 1, 219, 120, 107, 236, 27, 202, 231, 170, 106, 120, 43, 67, 142, 255, 207, 17, 85, 249, 149, 252, 10, 84, 195>>>>,
  <<"sha3_256", 0, 300, <<77, 26, 107, 51, 76, 0, 155, 166, 239, 138, 190, 32, 128, 240, 97, 235, 98, 152, 94, 15, 2, 197, 134, 60, 207, 224, 206, 200, 139, 64, 152, 237>>>>,
  <<"sha3_384", 0, 0, <<12, 99, 167, 91, 132, 94, 79, 125, 1, 16, 125, 133, 46, 76, 36, 133, 197, 26, 80, 170, 170, 148, 252, 97, 153, 94, 113, 187, 238, 152, 58, 42, 195, 113, 56, 49, 38, 74, 219, 71, 251, 107, 209, 224, 88, 213, 240, 4>>>>,
  <<"sha3_384", 0, 1, <<49, 123, 208, 9, 32, 59, 199, 155, 6, 78, 83, 248, 236, 203, 99, 46, 5, 19, 135, 44, 158, 197, 192, 166, 148, 150, 174, 248, 150, 113, 175, 33, 237, 146, 163, 178, 85, 72, 12, 90, 9, 118, 234, 73, 37, 138, 192, 142>>>>,
  <<"sha3_384", 0, 3, <<213, 197, 88, 136, 187, 119, 178, 90, 202, 232, 32, 226, 250, 106, 2, 234, 151, 63, 206, 27, 168, 247, 46, 214, 20, 87, 195, 163, 208, 140, 147, 105, 6, 54, 211, 226, 58, 218, 13, 100, 110, 168, 183, 196, 130, 242, 53, 203>>>>,
  <<"sha3_384", 0, 43, <<21, 58, 126, 142, 242, 75, 232, 115, 124, 226, 161, 132, 238, 234, 58, 252, 69, 77, 225, 12, 167, 232, 67, 237, 245, 181, 156, 244, 32, 225, 168, 186, 22, 44, 9, 155, 169, 167, 145, 18, 19, 89, 101, 171, 173, 224, 125, 79>>>>,
  <<"sha3_384", 0, 103, <<131, 105, 227, 222, 22, 228, 234, 245, 12, 38, 213, 55, 118, 190, 160, 61, 43, 142, 118, 66, 211, 15, 244, 131, 122, 160, 79, 186, 118, 243, 59, 247, 238, 158, 205, 239, 196, 166, 163, 254, 249, 35, 154, 247, 97, 138, 118, 128>>>>,
  <<"sha3_384", 0, 104, <<226, 224, 246, 122, 201, 106, 143, 100, 173, 137, 18, 137, 72, 56, 155, 42, 153, 94, 202, 226, 36, 112, 175, 4, 30, 52, 237, 228, 217, 21, 219, 181, 73, 77, 250, 21, 127, 155, 177, 44, 42, 177, 58, 194, 59, 28, 241, 75>>>>,
  <<"sha3_384", 0, 105, <<124, 128, 240, 178, 178, 95, 125, 35, 212, 67, 189, 38, 23, 236, 88, 110, 63, 120, 69, 84, 54, 11, 138, 215, 209, 234, 89, 20, 100, 153, 22, 51, 252, 152, 246, 184, 192, 34, 172, 17, 167, 238, 159, 129, 153, 76, 198, 81>>>>,
  <<"sha3_384", 0, 213, <<119, 206, 106, 164, 141, 63, 19, 1, 102, 230, 208, 7, 92, 57, 10, 3, 222, 60, 62, 35, 209, 220, 53, 251, 127, 181, 72, 215, 132, 133, 191, 242, 202, 243, 204, 20, 231, 20, 36, 194, 80, 46, 170, 90, 10, 246, 211, 234>>>>,
  <<"sha3_384", 0, 300, <<193, 217, 45, 194, 27, 23, 34, 105, 164, 147, 34, 143, 230, 163, 249, 141, 8, 25, 14, 7, 150, 14, 80, 38, 54, 124, 17, 134, 63, 128, 200, 190, 83, 223, 168, 20, 206, 72, 104, 159, 52, 189, 172, 65, 122, 136, 166, 173>>>>,
  <<"sha3_512", 0, 0, <<166, 159, 115, 204, 162, 58, 154, 197, 200, 181, 103, 220, 24, 90, 117, 110, 151, 201, 130, 22, 79, 226, 88, 89, 224, 209, 220, 193, 71, 92, 128, 166, 21, 178, 18, 58, 241, 245, 249, 76, 17, 227, 233, 64, 44, 58, 197, 88, 245, 0, 25, 157, 149, 182, 211, 227, 1, 117, 133, 134, 40, 29, 205, 38>>>>,
  <<"sha3_512", 0, 1, <<196, 106, 243, 95, 164, 89, 74, 36, 117, 67, 195, 62, 82, 225, 117, 114, 249, 76, 72, 210, 189, 196, 46, 10, 46, 134, 27, 128, 90, 40, 130, 14, 118, 42, 73, 59, 157, 38, 96, 36, 113, 152, 186, 227, 26, 197, 16, 144, 60, 40, 46, 226, 36, 241, 80, 3, 207, 223, 175, 64, 42, 25, 203, 145>>>>,
  <<"sha3_512", 0, 3, <<83, 54, 4, 181, 196, 200, 142, 222, 65, 24, 78, 3, 99, 137, 210, 203, 50, 45, 65, 101, 188, 117, 173, 192, 249, 171, 216, 54, 16, 251, 179, 144, 84, 50, 107, 187, 80, 108, 80, 183, 79, 95, 129, 79, 202, 85, 187, 211, 214, 30, 239, 105, 67, 239, 82, 222, 159, 193, 130, 185, 59, 235, 241, 210>>>>,
  <<"sha3_512", 0, 27, <<134, 95, 185, 28, 141, 216, 226, 124, 64, 187, 157, 192, 180, 132, 23, 95, 243, 202, 239, 114, 98, 69, 182, 220, 93, 17, 175, 39, 66, 38, 192, 100, 222, 179, 5, 34, 19, 241, 143, 255, 179, 231, 42, 225, 96, 155, 59, 153, 217, 63, 73, 159, 57, 162, 218, 229, 178, 17, 201, 33, 40, 148, 90, 159>>>>,
  <<"sha3_512", 0, 71, <<158, 77, 238, 99, 103, 222, 90, 35, 105, 85, 47, 123, 197, 152, 74, 166, 108, 77, 222, 201, 128, 217, 7, 89, 40, 52, 252, 25, 74, 249, 204, 153, 101, 188, 183, 146, 146, 250, 238, 220, 201, 52, 113, 236, 197, 179, 211, 57, 131, 190, 181, 84, 158, 41, 18, 96, 116, 255, 204, 197, 154, 248, 9, 184>>>>,
  <<"sha3_512", 0, 72, <<87, 79, 129, 156, 132, 142, 157, 111, 73, 47, 3, 132, 112, 85, 24, 3, 23, 116, 12, 226, 248, 71, 51, 116, 233, 197, 146, 85, 217, 226, 245, 252, 69, 110, 239, 24, 237, 22, 159, 54, 183, 78, 130, 160, 62, 65, 100, 105, 76, 16, 35, 137, 192, 120, 20, 131, 131, 140, 136, 64, 137, 12, 66, 158>>>>,
  <<"sha3_512", 0, 73, <<150, 131, 108, 80, 162, 216, 36, 255, 14, 178, 40, 229, 6, 14, 11, 136, 239, 211, 14, 16, 179, 102, 52, 126, 149, 172, 230, 144, 155, 218, 101, 178, 63, 168, 210, 104, 236, 248, 138, 213, 229, 60, 195, 73, 34, 128, 56, 146, 0, 1, 85, 86, 216, 194, 238, 62, 63, 186, 165, 188, 227, 219, 103, 139>>>>,
  <<"sha3_512", 0, 149, <<116, 214, 146, 212, 112, 61, 48, 17, 183, 169, 165, 236, 203, 142, 201, 139, 73, 172, 72, 121, 189, 206, 148, 235, 158, 151, 92, 248, 43, 56, 74, 45, 40, 32, 235, 147, 86, 97, 58, 239, 50, 252, 254, 72, 140, 5, 90, 62, 162, 191, 100, 212, 46, 37, 113, 164, 56, 170, 230, 145, 167, 247, 88, 66>>>>,
  <<"sha3_512", 0, 300, <<48, 225, 199, 188, 220, 198, 171, 12, 164, 88, 50, 2, 26, 178, 94, 222, 116, 194, 219, 156, 210, 144, 69, 50, 233, 66, 148, 93, 9, 165, 210, 58, 0, 222, 150, 68, 51, 250, 113, 169, 60, 106, 193, 214, 129, 241, 152, 234, 69, 155, 58, 94, 202, 255, 91, 117, 100, 83, 100, 105, 127, 39, 194, 150>>>>,
  <<"shake128", 0, 0, <<127, 156, 43, 164, 232, 143, 130, 125, 97, 96, 69, 80, 118, 5, 133, 62, 215, 59, 128, 147, 246, 239, 188, 136, 235, 26, 110, 172, 250, 102, 239, 38, 60, 177, 238, 169, 136, 0, 75, 147, 16, 60, 251, 10, 238, 253, 42, 104, 110, 1, 250, 74, 88, 232, 163, 99, 156, 168, 161, 227, 249, 174, 87, 226, 53, 184, 204, 135, 60, 35, 220, 98, 184, 210, 96, 22, 154, 250, 47, 117, 171, 145, 106, 88, 217, 116, 145, 136, 53, 210, 94, 106, 67, 80, 133, 178, 186, 223, 214, 223, 170, 195, 89, 165, 239, 187, 123, 204, 75, 89, 213, 56, 223, 154, 4, 48, 46, 16, 200, 188, 28, 191, 26, 11, 58, 81, 32, 234, 23, 205, 167, 207, 173, 118, 95, 86, 35, 71, 77, 54, 140, 204, 168, 175, 0, 7, 205, 159, 94, 76, 132, 159, 22, 122, 88, 11, 20, 170, 189, 239, 174, 231, 238, 244, 124, 176, 252, 169, 118, 123, 225, 253, 166, 148, 25, 223, 185, 39, 233, 223, 7, 52, 139, 25, 102, 145, 171, 174, 181, 128, 179, 45, 239, 88, 83, 139, 141, 35, 248, 119, 50, 234, 99, 176, 43, 79, 160, 244, 135, 51, 96, 226, 132, 25, 40, 205, 96, 221, 76, 238, 140, 192, 212, 201, 34, 169, 97, 136, 208, 50, 103, 92, 138, 200, 80, 147, 60, 122, 255, 21, 51, 185, 76, 131, 74, 219, 182, 156, 97, 21, 186, 212, 105, 45, 134, 25, 249, 11, 12, 223, 138, 123, 156, 38, 64, 41, 172, 24, 91, 112, 184, 63, 40, 1, 242, 244, 179, 247, 12, 89, 62, 163, 174, 235, 97, 58, 127, 27, 29, 227, 63, 215, 80, 129, 245, 146, 48, 95, 46, 69, 38, 237, 192, 150, 49, 177, 9, 88, 244, 100, 216, 137, 243, 27, 160, 16, 37, 15, 218, 127, 19, 104, 236, 41, 103, 252, 132, 239, 42, 233, 175, 242, 104, 224, 177, 112, 10, 255, 198, 130, 11, 82, 58, 61, 145, 113, 53, 242, 223, 242, 238, 6, 191, 231, 43, 49, 36, 114, 29, 74, 38, 192, 78, 83, 167, 94, 48, 231, 58, 122, 156, 74, 149, 217, 28, 85, 212, 149, 233, 245, 29, 208, 181, 233, 216, 60, 109, 94, 140, 232, 3, 170, 98, 184, 214, 84, 219, 83, 208, 155>>>>,
  <<"shake128", 0, 1, <<68, 185, 180, 141, 171, 233, 148, 112, 202, 187, 220, 212, 161, 85, 207, 27, 205, 134, 69, 35, 136, 176, 166, 213, 182, 126, 134, 131, 54, 119, 192, 130, 79, 76, 254, 149, 198, 6, 56, 242, 124, 200, 118, 99, 242, 153, 249, 9, 92, 118, 96, 189, 113, 189, 29, 36, 140, 230, 35, 128, 87, 108, 136, 117, 2, 158, 104, 253, 12, 160, 113, 122, 4, 132, 97, 143, 156, 84, 4, 205, 93, 125, 213, 88, 99, 8, 181, 133, 120, 167, 176, 202, 76, 42, 170, 7, 129, 51, 78, 131, 254, 220, 123, 56, 252, 156, 156, 204, 58, 176, 153, 51, 29, 66, 57, 7, 108, 183, 88, 101, 23, 186, 80, 143, 128, 26, 246, 59, 173, 146, 207, 231, 66, 251, 45, 13, 208, 45, 215, 246, 165, 53, 39, 26, 137, 73, 155, 195, 9, 183, 254, 36, 240, 199, 94, 69, 160, 243, 14, 147, 161, 134, 230, 77, 67, 21, 15, 47, 206, 201, 43, 234, 38, 188, 4, 40, 91, 201, 55, 183, 25, 222, 189, 170, 141, 20, 229, 199, 235, 202, 214, 74, 4, 193, 255, 98, 160, 41, 65, 108, 173, 77, 197, 235, 206, 21, 9, 108, 202, 102, 233, 43, 28, 3, 223, 91, 2, 46, 91, 101, 114, 221, 110, 55, 253, 224, 14, 233, 176, 255, 102, 243, 249, 223, 107, 117, 168, 191, 26, 33, 45, 254, 166, 250, 165, 85, 13, 173, 163, 51, 220, 255, 93, 24, 48, 174, 209, 129, 209, 175, 229, 65, 145, 173, 48, 230, 75, 243, 198, 227, 13, 0, 91, 44, 159, 98, 61, 131, 142, 223, 131, 155, 160, 39, 238, 235, 186, 151, 133, 3, 218, 142, 45, 15, 181, 45, 18, 73, 212, 177, 127, 14, 129, 38, 47, 62, 107, 27, 22, 139, 248, 1, 173, 202, 80, 156, 251, 82, 11, 219, 226, 140, 96, 248, 225, 87, 64, 244, 241, 24, 142, 37, 111, 15, 75, 213, 146, 4, 111, 165, 201, 126, 203, 75, 69, 109, 233, 248, 216, 145, 31, 157, 23, 167, 106, 57, 14, 57, 245, 80, 233, 0, 41, 69, 8, 147, 99, 209, 234, 204, 40, 82, 42, 33, 12, 193, 233, 231, 255, 101, 103, 94, 118, 79, 76, 149, 25, 172, 116, 203, 130, 103, 163, 217, 72, 99, 238, 82, 36, 217>>>>,
  <<"shake128", 0, 3, <<117, 73, 125, 64, 131, 180, 143, 128, 228, 137, 69, 73, 156, 154, 32, 61, 61, 93, 177, 231, 60, 91, 238, 58, 134, 165, 7, 56, 222, 26, 195, 210, 100, 194, 140, 64, 66, 174, 254, 161, 50, 12, 78, 6, 64, 213, 86, 137, 136, 230, 230, 158, 97, 131, 249, 245, 38, 46, 23, 21, 179, 57, 137, 100, 21, 41, 135, 18, 58, 219, 65, 77, 92, 7, 177, 38, 209, 40, 240, 220, 117, 198, 153, 1, 100, 79, 154, 135, 119, 96, 223, 137, 128, 80, 167, 86, 113, 145, 52, 251, 45, 33, 48, 81, 76, 54, 99, 170, 62, 62, 199, 231, 122, 17, 251, 1, 135, 77, 126, 120, 122, 108, 7, 223, 143, 74, 45, 228, 26, 138, 104, 240, 8, 145, 48, 238, 16, 172, 225, 144, 233, 242, 33, 91, 108, 179, 140, 78, 98, 127, 105, 179, 67, 181, 53, 231, 146, 244, 81, 28, 230, 3, 55, 68, 113, 13, 226, 29, 202, 181, 236, 24, 231, 248, 199, 75, 178, 250, 1, 239, 218, 121, 75, 62, 31, 57, 91, 165, 98, 112, 55, 148, 183, 95, 8, 60, 55, 52, 28, 49, 20, 162, 76, 145, 89, 84, 88, 163, 88, 253, 200, 192, 143, 9, 229, 212, 117, 180, 173, 134, 183, 209, 8, 20, 114, 241, 104, 199, 211, 18, 120, 179, 109, 83, 131, 191, 220, 61, 159, 227, 116, 91, 114, 130, 227, 139, 44, 41, 206, 169, 9, 235, 132, 13, 202, 110, 43, 123, 248, 57, 120, 47, 142, 227, 4, 168, 255, 207, 191, 238, 116, 220, 172, 128, 240, 96, 168, 189, 125, 170, 160, 214, 158, 167, 229, 62, 231, 77, 137, 251, 100, 216, 222, 100, 204, 131, 193, 87, 255, 51, 250, 93, 188, 241, 20, 129, 222, 173, 239, 36, 222, 169, 200, 118, 67, 160, 163, 201, 19, 85, 31, 109, 174, 207, 210, 192, 122, 128, 43, 119, 230, 30, 85, 138, 69, 166, 243, 38, 97, 181, 118, 143, 243, 235, 237, 223, 192, 9, 48, 122, 57, 226, 72, 55, 193, 224, 161, 223, 69, 155, 107, 163, 79, 47, 190, 151, 133, 158, 47, 231, 133, 48, 255, 177, 10, 212, 207, 137, 199, 167, 92, 113, 242, 143, 236, 28, 205, 237, 56, 66, 70, 138, 81, 227, 147, 174, 84, 165, 43, 110>>>>,
  <<"shake128", 0, 75, <<155, 216, 83, 138, 33, 36, 190, 103, 149, 135, 36, 154, 242, 62, 251, 103, 97, 20, 60, 65, 88, 152, 89, 59, 31, 163, 21, 123, 195, 81, 32, 88, 32, 95, 135, 103, 0, 173, 15, 86, 40, 17, 187, 153, 145, 132, 73, 173, 187, 213, 251, 195, 39, 213, 237, 168, 248, 107, 112, 188, 57, 150, 192, 172, 94, 209, 163, 201, 233, 216, 60, 97, 193, 7, 16, 216, 27, 224, 229, 239, 90, 176, 106, 6, 239, 8, 8, 96, 61, 129, 129, 128, 133, 7, 173, 224, 138, 138, 179, 34, 244, 140, 161, 249, 219, 83, 189, 176, 10, 151, 128, 27, 184, 151, 157, 115, 198, 112, 116, 63, 247, 37, 219, 156, 210, 40, 8, 211, 222, 48, 154, 165, 129, 246, 44, 218, 167, 233, 175, 99, 71, 203, 206, 83, 30, 242, 146, 205, 181, 158, 203, 86, 121, 130, 202, 168, 24, 227, 48, 100, 60, 0, 131, 35, 163, 178, 172, 77, 43, 160, 4, 142, 113, 152, 123, 73, 82, 212, 70, 190, 213, 241, 125, 23, 194, 121, 104, 95, 103, 166, 57, 130, 74, 91, 87, 199, 209, 194, 2, 77, 7, 255, 222, 131, 7, 167, 70, 23, 29, 237, 220, 217, 55, 191, 116, 227, 219, 31, 115, 21, 35, 26, 192, 50, 115, 220, 95, 219, 248, 84, 194, 81, 171, 239, 155, 16, 215, 50, 193, 42, 11, 131, 118, 61, 129, 41, 95, 10, 198, 108, 124, 92, 214, 155, 225, 247, 52, 53, 155, 5, 230, 83, 99, 236, 220, 87, 113, 117, 218, 37, 18, 9, 33, 176, 173, 157, 196, 30, 192, 78, 40, 65, 139, 242, 187, 87, 238, 254, 102, 12, 224, 143, 14, 47, 78, 0, 15, 104, 201, 246, 3, 153, 156, 230, 51, 233, 74, 112, 115, 252, 39, 125, 24, 36, 155, 136, 68, 129, 56, 231, 74, 211, 11, 67, 186, 150, 136, 231, 146, 147, 49, 17, 87, 143, 86, 119, 149, 169, 153, 196, 135, 188, 201, 211, 16, 128, 203, 168, 240, 194, 99, 129, 210, 217, 135, 5, 159, 39, 161, 140, 158, 220, 95, 109, 163, 24, 97, 122, 101, 34, 153, 144, 198, 211, 93, 22, 111, 106, 249, 108, 49, 64, 1, 140, 96, 171, 34, 93, 70, 187, 156, 68, 44, 171, 140, 23, 235, 165, 4, 91>>>>,
  <<"shake128", 0, 167, <<245, 86, 164, 245, 236, 109, 140, 151, 31, 29, 12, 163, 192, 220, 26, 51, 244, 194, 135, 139, 140, 84, 211, 19, 86, 10, 102, 190, 38, 182, 38, 111, 73, 244, 72, 251, 59, 66, 57, 218, 161, 9, 62, 7, 250, 228, 244, 0, 196, 135, 16, 177, 169, 6, 157, 5, 8, 135, 31, 177, 77, 217, 26, 40, 79, 129, 51, 164, 1, 217, 114, 77, 36, 240, 110, 248, 41, 74, 9, 63, 159, 28, 80, 51, 12, 94, 226, 201, 247, 47, 114, 157, 113, 147, 184, 111, 196, 225, 47, 150, 188, 218, 186, 198, 191, 77, 175, 147, 191, 162, 170, 131, 160, 42, 200, 219, 175, 193, 238, 23, 210, 45, 59, 179, 232, 181, 234, 17, 209, 255, 193, 14, 248, 190, 239, 154, 192, 64, 94, 175, 122, 149, 248, 143, 245, 179, 70, 101, 65, 114, 36, 150, 103, 91, 30, 92, 163, 175, 141, 40, 85, 114, 109, 122, 215, 184, 142, 107, 105, 93, 187, 68, 36, 123, 57, 127, 8, 104, 251, 174, 131, 119, 10, 89, 30, 33, 41, 178, 217, 48, 130, 114, 156, 162, 232, 195, 12, 122, 236, 147, 86, 243, 41, 242, 135, 249, 226, 147, 45, 233, 146, 156, 211, 248, 46, 29, 105, 52, 51, 186, 11, 141, 202, 198, 245, 73, 4, 33, 249, 41, 208, 247, 218, 155, 217, 80, 88, 91, 35, 33, 131, 69, 242, 60, 43, 242, 13, 63, 49, 196, 113, 240, 114, 185, 167, 212, 153, 39, 175, 31, 78, 165, 127, 37, 90, 56, 145, 93, 138, 234, 179, 242, 111, 177, 245, 154, 189, 43, 252, 117, 34, 114, 24, 107, 114, 7, 97, 104, 17, 105, 71, 27, 135, 190, 102, 54, 73, 254, 249, 219, 60, 3, 24, 163, 237, 205, 120, 205, 26, 140, 180, 50, 172, 142, 138, 167, 117, 83, 116, 234, 5, 51, 54, 191, 35, 219, 10, 208, 136, 53, 233, 138, 167, 186, 217, 236, 157, 136, 181, 147, 142, 165, 47, 215, 10, 77, 242, 84, 119, 214, 82, 253, 233, 69, 61, 122, 207, 217, 155, 150, 203, 228, 107, 59, 154, 46, 56, 150, 117, 121, 163, 40, 150, 225, 230, 57, 46, 190, 189, 200, 195, 64, 245, 49, 60, 116, 204, 217, 229, 9, 70, 170, 210, 67, 240, 211, 97, 197, 220, 57>>>>,
  <<"shake128", 0, 168, <<10, 3, 120, 20, 76, 170, 121, 111, 155, 196, 175, 55, 181, 50, 158, 239, 191, 132, 109, 208, 240, 137, 216, 124, 225, 240, 102, 94, 3, 63, 125, 38, 123, 213, 183, 7, 34, 133, 85, 110, 32, 133, 21, 86, 138, 49, 200, 65, 164, 184, 10, 38, 237, 169, 241, 91, 164, 200, 64, 111, 106, 181, 152, 220, 133, 126, 170, 234, 88, 81, 101, 184, 115, 82, 162, 220, 144, 248, 45, 124, 109, 182, 229, 49, 68, 125, 17, 95, 13, 221, 211, 249, 131, 222, 131, 151, 13, 185, 146, 178, 232, 47, 167, 188, 101, 102, 150, 85, 96, 47, 88, 145, 220, 207, 154, 115, 199, 215, 250, 142, 0, 157, 1, 153, 31, 231, 121, 178, 100, 165, 180, 120, 223, 172, 72, 101, 91, 246, 214, 230, 119, 223, 199, 47, 51, 171, 187, 88, 147, 17, 166, 88, 68, 160, 13, 202, 0, 44, 141, 121, 22, 43, 211, 252, 150, 23, 4, 55, 61, 228, 200, 118, 171, 11, 53, 117, 25, 225, 82, 4, 106, 253, 15, 231, 112, 136, 151, 96, 58, 181, 250, 109, 249, 183, 53, 250, 157, 139, 227, 109, 227, 136, 157, 25, 123, 86, 94, 170, 196, 9, 11, 150, 120, 179, 86, 72, 222, 23, 124, 251, 230, 30, 140, 170, 92, 101, 91, 30, 52, 115, 234, 29, 238, 234, 177, 220, 235, 143, 226, 68, 98, 38, 61, 28, 181, 74, 198, 128, 54, 88, 4, 4, 145, 224, 41, 242, 226, 85, 20, 201, 64, 198, 1, 75, 71, 190, 60, 139, 212, 50, 134, 173, 2, 126, 17, 1, 105, 162, 149, 12, 75, 198, 233, 27, 102, 158, 25, 178, 8, 174, 12, 169, 118, 92, 242, 180, 10, 16, 238, 175, 149, 221, 69, 255, 116, 69, 42, 6, 75, 172, 136, 220, 233, 251, 15, 118, 137, 102, 2, 129, 234, 204, 177, 157, 83, 126, 251, 68, 170, 252, 177, 236, 179, 151, 63, 209, 238, 29, 31, 144, 155, 75, 93, 190, 16, 84, 49, 147, 246, 52, 104, 187, 231, 201, 117, 149, 216, 147, 40, 92, 101, 145, 105, 67, 126, 188, 193, 60, 8, 189, 144, 107, 222, 121, 182, 251, 234, 179, 37, 178, 170, 105, 169, 225, 30, 204, 191, 244, 35, 164, 154, 108, 131, 204, 232, 9, 28, 64, 213, 55>>>>,
  <<"shake128", 0, 169, <<102, 70, 154, 163, 212, 238, 230, 47, 32, 115, 248, 141, 237, 211, 158, 136, 196, 27, 218, 38, 205, 89, 137, 208, 45, 116, 222, 72, 197, 121, 16, 167, 138, 80, 144, 23, 49, 244, 74, 172, 96, 175, 198, 128, 146, 236, 152, 79, 90, 86, 68, 192, 150, 138, 55, 16, 161, 88, 151, 31, 166, 156, 207, 13, 113, 203, 35, 51, 154, 26, 125, 48, 226, 99, 77, 145, 249, 90, 45, 50, 152, 159, 140, 136, 212, 88, 15, 185, 35, 239, 75, 54, 93, 194, 36, 99, 228, 215, 60, 212, 190, 22, 114, 209, 99, 47, 228, 211, 89, 116, 102, 33, 73, 201, 112, 21, 177, 169, 18, 75, 241, 41, 107, 254, 222, 213, 126, 90, 204, 118, 196, 80, 215, 224, 109, 84, 120, 252, 7, 133, 139, 75, 141, 96, 239, 32, 24, 208, 20, 62, 226, 5, 60, 184, 154, 142, 30, 158, 221, 211, 64, 27, 160, 114, 23, 154, 189, 215, 207, 151, 208, 221, 101, 229, 204, 198, 174, 91, 30, 22, 79, 190, 245, 110, 30, 16, 0, 225, 110, 150, 37, 134, 167, 227, 209, 89, 91, 230, 144, 87, 20, 202, 159, 110, 183, 80, 119, 11, 170, 216, 190, 52, 39, 241, 147, 240, 62, 0, 192, 11, 99, 68, 203, 21, 22, 209, 157, 225, 59, 232, 11, 156, 213, 229, 164, 45, 220, 91, 195, 8, 149, 101, 10, 42, 186, 133, 230, 205, 13, 167, 231, 153, 158, 137, 151, 24, 39, 103, 134, 75, 88, 62, 151, 142, 127, 162, 37, 97, 219, 185, 193, 151, 89, 208, 209, 98, 65, 235, 206, 102, 200, 225, 71, 117, 130, 109, 153, 117, 21, 173, 70, 199, 179, 17, 85, 9, 112, 22, 140, 200, 30, 115, 25, 252, 248, 189, 146, 67, 100, 91, 8, 85, 145, 228, 191, 226, 233, 231, 168, 55, 39, 246, 17, 202, 83, 168, 117, 252, 87, 237, 167, 10, 14, 219, 247, 163, 247, 100, 115, 166, 146, 150, 121, 211, 185, 229, 58, 80, 189, 178, 235, 153, 75, 18, 78, 108, 167, 90, 243, 36, 137, 244, 207, 244, 173, 1, 145, 59, 160, 122, 33, 110, 135, 47, 109, 121, 97, 154, 49, 26, 165, 230, 174, 35, 252, 231, 40, 239, 95, 87, 218, 238, 177, 102, 193, 211, 198, 56, 191, 22>>>>,
  <<"shake128", 0, 341, <<171, 128, 248, 49, 71, 233, 55, 191, 178, 133, 163, 100, 213, 236, 242, 157, 197, 223, 88, 37, 25, 239, 173, 191, 29, 62, 222, 149, 162, 110, 90, 202, 117, 135, 53, 43, 200, 219, 168, 117, 105, 202, 152, 39, 11, 120, 102, 186, 37, 116, 249, 109, 7, 98, 179, 141, 172, 230, 199, 161, 126, 206, 80, 245, 17, 168, 28, 42, 39, 115, 168, 32, 94, 235, 192, 7, 112, 176, 167, 21, 255, 110, 24, 198, 100, 181, 202, 35, 181, 206, 238, 56, 184, 100, 120, 133, 225, 29, 200, 126, 153, 32, 165, 222, 211, 48, 255, 212, 43, 209, 208, 108, 17, 46, 128, 41, 9, 241, 118, 188, 223, 123, 255, 89, 36, 97, 140, 78, 64, 37, 200, 50, 159, 5, 92, 164, 109, 134, 28, 73, 179, 29, 80, 191, 136, 210, 33, 131, 251, 211, 233, 157, 233, 145, 33, 251, 230, 1, 142, 126, 3, 1, 185, 171, 159, 164, 45, 203, 39, 93, 84, 180, 49, 65, 114, 6, 129, 87, 202, 153, 248, 137, 212, 99, 171, 162, 246, 221, 7, 146, 116, 165, 30, 223, 231, 20, 95, 119, 71, 119, 255, 48, 87, 243, 0, 20, 111, 77, 173, 87, 165, 68, 17, 215, 185, 186, 47, 118, 9, 33, 75, 240, 246, 65, 32, 191, 40, 175, 163, 23, 214, 21, 211, 254, 178, 27, 133, 108, 68, 72, 10, 161, 247, 212, 225, 179, 118, 63, 100, 137, 108, 102, 27, 191, 181, 103, 134, 250, 152, 80, 187, 167, 38, 56, 3, 191, 90, 174, 170, 19, 61, 166, 42, 19, 6, 20, 35, 12, 12, 165, 104, 160, 189, 211, 26, 144, 52, 106, 90, 90, 98, 149, 212, 136, 182, 184, 174, 120, 95, 103, 38, 234, 66, 22, 110, 75, 84, 156, 169, 94, 237, 171, 63, 17, 2, 230, 243, 203, 6, 62, 155, 142, 37, 229, 218, 210, 224, 144, 74, 143, 236, 141, 148, 227, 3, 61, 21, 132, 43, 161, 189, 236, 42, 2, 178, 189, 225, 13, 84, 70, 184, 99, 164, 40, 60, 207, 161, 209, 101, 109, 219, 177, 224, 65, 23, 185, 228, 144, 29, 20, 152, 76, 35, 42, 63, 200, 221, 41, 8, 203, 217, 115, 53, 155, 246, 115, 49, 20, 73, 84, 194, 4, 161, 220, 116, 84, 193, 156, 219, 129>>>>,
  <<"shake128", 0, 300, <<33, 67, 239, 225, 0, 55, 66, 229, 115, 222, 62, 155, 17, 109, 137, 80, 51, 121, 147, 206, 33, 188, 231, 174, 163, 239, 64, 30, 112, 81, 99, 185, 80, 51, 110, 149, 130, 98, 76, 235, 194, 117, 141, 141, 145, 200, 6, 198, 94, 29, 180, 218, 93, 55, 96, 73, 117, 57, 144, 221, 206, 2, 22, 22, 252, 176, 175, 156, 190, 242, 87, 73, 188, 114, 232, 166, 48, 218, 164, 196, 24, 63, 191, 166, 43, 43, 43, 189, 4, 221, 1, 54, 44, 55, 203, 192, 147, 123, 160, 176, 207, 145, 144, 198, 209, 64, 87, 146, 216, 117, 244, 199, 74, 168, 175, 237, 153, 131, 170, 198, 210, 180, 80, 115, 171, 75, 234, 248, 85, 49, 204, 173, 221, 105, 114, 9, 86, 130, 142, 149, 19, 26, 90, 39, 220, 2, 98, 53, 243, 12, 168, 71, 21, 249, 137, 155, 255, 40, 95, 130, 223, 123, 254, 92, 133, 104, 37, 154, 56, 74, 145, 202, 70, 246, 77, 9, 248, 119, 155, 24, 251, 195, 70, 23, 154, 195, 230, 53, 225, 149, 104, 47, 132, 71, 98, 43, 146, 50, 236, 140, 27, 164, 71, 208, 151, 38, 210, 226, 195, 230, 45, 152, 22, 115, 33, 251, 204, 188, 188, 177, 64, 87, 179, 219, 103, 3, 169, 88, 254, 78, 228, 195, 60, 82, 246, 145, 96, 169, 74, 91, 74, 231, 237, 32, 1, 93, 131, 51, 237, 71, 96, 221, 109, 175, 114, 13, 169, 230, 128, 193, 61, 150, 126, 231, 28, 97, 119, 98, 236, 138, 217, 213, 11, 190, 110, 168, 167, 44, 227, 74, 4, 90, 18, 142, 237, 234, 13, 144, 32, 17, 40, 72, 78, 102, 103, 31, 148, 197, 120, 144, 4, 123, 234, 127, 237, 174, 179, 191, 231, 85, 188, 119, 174, 191, 15, 180, 131, 78, 165, 157, 17, 153, 211, 80, 35, 222, 58, 154, 111, 171, 124, 130, 55, 34, 10, 107, 122, 168, 97, 253, 6, 127, 193, 208, 138, 200, 101, 137, 104, 156, 149, 106, 140, 233, 254, 113, 28, 226, 85, 75, 52, 59, 63, 254, 176, 235, 219, 76, 114, 175, 20, 37, 0, 178, 243, 44, 156, 197, 86, 73, 69, 178, 142, 193, 19, 188, 225, 58, 161, 181, 121, 32, 240, 113, 251, 255, 206, 156, 86, 123>>>>,
  <<"shake256", 0, 0, <<70, 185, 221, 43, 11, 168, 141, 19, 35, 59, 63, 235, 116, 62, 235, 36, 63, 205, 82, 234, 98, 184, 27, 130, 181, 12, 39, 100, 110, 213, 118, 47, 215, 93, 196, 221, 216, 192, 242, 0, 203, 5, 1, 157, 103, 181, 146, 246, 252, 130, 28, 73, 71, 154, 180, 134, 64, 41, 46, 172, 179, 183, 196, 190, 20, 30, 150, 97, 111, 177, 57, 87, 105, 44, 199, 237, 208, 180, 90, 227, 220, 7, 34, 60, 142, 146, 147, 123, 239, 132, 188, 14, 171, 134, 40, 83, 52, 158, 199, 85, 70, 245, 143, 183, 194, 119, 92, 56, 70, 44, 80, 16, 216, 70, 193, 133, 193, 81, 17, 229, 149, 82, 42, 107, 205, 22, 207, 134, 243, 209, 34, 16, 158, 59, 31, 221, 148, 59, 106, 236, 70, 138, 45, 98, 26, 124, 6, 198, 169, 87, 198, 43, 84, 218, 252, 59, 232, 117, 103, 214, 119, 35, 19, 149, 246, 20, 114, 147, 182, 140, 234, 183, 169, 224, 197, 141, 134, 78, 142, 253, 228, 225, 185, 164, 108, 190, 133, 71, 19, 103, 47, 92, 170, 174, 49, 78, 217, 8, 61, 171, 75, 9, 159, 142, 48, 15, 1, 184, 101, 15, 31, 75, 29, 143, 207, 63, 60, 181, 63, 184, 233, 235, 46, 162, 3, 189, 201, 112, 245, 10, 229, 84, 40, 169, 31, 127, 83, 172, 38, 107, 40, 65, 156, 55, 120, 161, 95, 210, 72, 211, 57, 237, 231, 133, 251, 127, 90, 26, 170, 150, 211, 19, 234, 204, 137, 9, 54, 193, 115, 205, 205, 15, 171, 136, 44, 69, 117, 95, 235, 58, 237, 150, 212, 119, 255, 150, 57, 11, 249, 166, 109, 19, 104, 178, 8, 226, 31, 124, 16, 208, 74, 61, 189, 78, 54, 6, 51, 229, 219, 75, 96, 38, 1, 193, 76, 234, 115, 125, 179, 220, 247, 34, 99, 44, 199, 120, 81, 203, 221, 226, 170, 240, 163, 58, 7, 179, 115, 68, 93, 244, 144, 204, 143, 193, 228, 22, 15, 241, 24, 55, 143, 17, 240, 71, 125, 224, 85, 168, 26, 158, 218, 87, 164, 162, 207, 176, 200, 57, 41, 211, 16, 145, 47, 114, 158, 198, 207, 163, 108, 106, 198, 167, 88, 55, 20, 48, 69, 215, 145, 204, 133, 239, 245, 178, 25, 50, 242, 56, 97, 188>>>>,
  <<"shake256", 0, 1, <<148, 218, 98, 128, 178, 64, 234, 106, 42, 178, 207, 223, 15, 179, 1, 253, 119, 21, 61, 91, 116, 139, 175, 121, 97, 144, 133, 104, 3, 217, 119, 186, 92, 195, 86, 225, 110, 234, 88, 127, 44, 116, 197, 72, 12, 65, 254, 160, 27, 69, 245, 90, 188, 151, 34, 133, 63, 48, 210, 163, 78, 127, 205, 239, 6, 46, 105, 214, 210, 108, 100, 49, 195, 66, 61, 43, 13, 42, 2, 179, 198, 9, 166, 35, 175, 186, 155, 105, 105, 100, 242, 130, 89, 46, 24, 210, 136, 210, 244, 171, 196, 122, 20, 47, 72, 95, 194, 146, 228, 34, 109, 59, 230, 78, 129, 107, 119, 88, 138, 224, 6, 109, 197, 251, 246, 231, 111, 127, 1, 32, 194, 242, 171, 31, 224, 181, 252, 19, 86, 64, 235, 190, 98, 225, 134, 227, 1, 147, 77, 40, 236, 105, 36, 77, 222, 223, 4, 158, 141, 200, 95, 172, 146, 16, 17, 123, 153, 233, 60, 145, 22, 43, 248, 173, 102, 155, 129, 118, 10, 221, 44, 252, 89, 5, 146, 121, 190, 182, 226, 47, 114, 233, 3, 138, 61, 99, 119, 247, 89, 92, 209, 205, 244, 96, 11, 84, 111, 77, 107, 1, 184, 248, 184, 126, 110, 10, 203, 181, 58, 71, 232, 218, 199, 248, 113, 180, 108, 102, 184, 155, 118, 140, 65, 136, 90, 224, 25, 125, 248, 175, 231, 174, 121, 235, 136, 62, 136, 173, 8, 191, 63, 159, 227, 71, 34, 83, 185, 125, 47, 28, 89, 208, 95, 233, 36, 73, 240, 8, 148, 134, 217, 88, 168, 50, 106, 133, 203, 175, 227, 81, 175, 91, 20, 109, 222, 214, 151, 90, 123, 84, 238, 215, 171, 114, 111, 54, 124, 94, 6, 50, 33, 119, 142, 4, 246, 178, 227, 229, 223, 19, 77, 168, 177, 242, 22, 236, 176, 99, 100, 176, 209, 253, 217, 133, 134, 29, 12, 160, 82, 14, 113, 143, 111, 225, 135, 21, 195, 238, 48, 111, 235, 117, 192, 82, 108, 206, 233, 64, 163, 57, 154, 54, 156, 41, 39, 239, 9, 254, 47, 8, 151, 243, 222, 194, 119, 64, 197, 121, 105, 166, 237, 111, 180, 56, 237, 16, 66, 233, 103, 100, 107, 14, 7, 71, 91, 64, 103, 171, 174, 213, 134, 136, 251, 49, 5, 79, 90, 222, 165, 211>>>>,
  <<"shake256", 0, 3, <<52, 9, 200, 169, 130, 64, 49, 221, 101, 220, 148, 213, 221, 117, 32, 24, 170, 182, 172, 205, 66, 148, 228, 155, 41, 81, 95, 0, 90, 102, 163, 128, 209, 141, 4, 176, 18, 200, 38, 98, 123, 139, 58, 105, 103, 201, 235, 94, 142, 134, 155, 103, 240, 58, 223, 68, 226, 94, 188, 153, 251, 198, 122, 224, 245, 16, 200, 11, 14, 184, 55, 200, 3, 99, 21, 217, 200, 234, 17, 42, 105, 150, 15, 234, 6, 139, 251, 175, 12, 153, 218, 81, 22, 229, 252, 140, 101, 148, 200, 242, 105, 201, 99, 56, 171, 130, 71, 91, 79, 226, 69, 196, 50, 239, 109, 150, 190, 93, 98, 122, 215, 36, 82, 172, 34, 35, 110, 183, 155, 170, 32, 115, 243, 159, 57, 150, 208, 72, 219, 235, 166, 177, 238, 69, 228, 249, 218, 208, 20, 108, 69, 46, 1, 36, 190, 137, 68, 92, 101, 69, 214, 83, 237, 152, 161, 165, 16, 120, 39, 0, 174, 136, 150, 41, 207, 216, 91, 151, 153, 247, 175, 3, 231, 238, 243, 99, 227, 60, 221, 169, 221, 72, 36, 248, 98, 202, 33, 182, 75, 232, 81, 168, 7, 204, 146, 235, 212, 160, 49, 99, 17, 154, 218, 95, 37, 46, 43, 43, 69, 3, 20, 41, 233, 49, 78, 238, 142, 165, 110, 141, 88, 101, 54, 109, 44, 167, 35, 204, 227, 66, 232, 27, 71, 30, 24, 122, 4, 177, 58, 89, 234, 74, 3, 181, 54, 173, 222, 96, 156, 253, 178, 47, 44, 151, 218, 205, 248, 18, 17, 118, 113, 7, 246, 251, 158, 224, 133, 135, 30, 222, 127, 209, 205, 88, 254, 177, 150, 88, 185, 61, 176, 110, 149, 201, 252, 54, 63, 152, 36, 53, 152, 39, 150, 175, 124, 170, 136, 118, 87, 8, 12, 236, 62, 3, 31, 112, 218, 143, 192, 199, 160, 119, 34, 28, 30, 212, 136, 185, 218, 220, 142, 182, 211, 186, 254, 114, 31, 209, 10, 96, 87, 116, 52, 61, 208, 148, 114, 248, 115, 128, 176, 226, 175, 180, 38, 8, 198, 165, 229, 102, 72, 221, 155, 15, 157, 227, 135, 91, 14, 116, 66, 54, 1, 219, 98, 154, 65, 61, 92, 83, 210, 71, 126, 85, 168, 8, 239, 228, 123, 192, 83, 21, 142, 224, 70, 66, 40, 144, 134, 192>>>>,
  <<"shake256", 0, 59, <<232, 22, 243, 205, 217, 29, 28, 22, 209, 214, 13, 12, 90, 103, 239, 42, 219, 57, 112, 219, 60, 156, 68, 126, 225, 24, 122, 196, 75, 220, 225, 25, 177, 35, 66, 134, 127, 135, 165, 70, 189, 78, 221, 230, 65, 110, 62, 36, 82, 172, 185, 229, 147, 111, 34, 213, 254, 31, 228, 52, 71, 115, 119, 222, 221, 143, 9, 139, 224, 162, 198, 100, 196, 65, 28, 248, 105, 31, 38, 186, 171, 47, 198, 174, 89, 219, 71, 173, 228, 222, 89, 193, 61, 169, 107, 174, 228, 138, 123, 211, 91, 179, 234, 142, 128, 123, 164, 140, 210, 57, 220, 88, 27, 7, 193, 99, 198, 221, 117, 252, 8, 37, 224, 146, 130, 162, 78, 122, 179, 53, 9, 138, 104, 218, 53, 75, 182, 122, 132, 82, 219, 131, 67, 250, 48, 63, 119, 190, 57, 19, 160, 202, 19, 80, 216, 139, 105, 93, 222, 147, 182, 39, 123, 157, 213, 251, 84, 72, 105, 25, 205, 73, 205, 120, 241, 61, 32, 104, 1, 167, 65, 94, 25, 129, 39, 130, 171, 208, 49, 32, 106, 41, 7, 72, 61, 151, 80, 231, 184, 90, 200, 23, 243, 144, 222, 58, 68, 207, 31, 137, 109, 53, 63, 21, 88, 178, 233, 224, 33, 247, 113, 42, 183, 199, 26, 70, 62, 13, 118, 233, 218, 163, 212, 7, 162, 98, 45, 112, 10, 149, 1, 98, 222, 144, 176, 119, 16, 176, 118, 255, 207, 240, 158, 116, 26, 198, 174, 31, 24, 168, 204, 34, 164, 247, 163, 94, 217, 4, 53, 245, 30, 81, 27, 199, 226, 46, 35, 124, 188, 252, 112, 94, 114, 122, 145, 6, 160, 255, 202, 244, 240, 108, 158, 247, 14, 138, 240, 58, 120, 173, 179, 114, 206, 166, 19, 167, 111, 135, 209, 228, 30, 60, 66, 239, 1, 86, 236, 180, 143, 177, 67, 222, 44, 66, 188, 214, 57, 225, 239, 64, 143, 156, 226, 184, 54, 152, 235, 167, 49, 241, 179, 9, 238, 162, 100, 179, 40, 59, 23, 253, 72, 101, 87, 167, 41, 204, 69, 247, 246, 19, 50, 5, 234, 235, 142, 73, 214, 206, 134, 228, 162, 145, 219, 2, 28, 186, 14, 12, 5, 45, 140, 249, 40, 217, 121, 83, 21, 50, 232, 51, 213, 37, 46, 180, 129, 18, 149, 145, 43, 255>>>>,
  <<"shake256", 0, 135, <<210, 251, 224, 166, 222, 212, 148, 80, 28, 195, 127, 212, 245, 218, 51, 11, 35, 225, 102, 1, 177, 46, 76, 55, 243, 50, 253, 235, 68, 49, 30, 99, 35, 219, 159, 175, 168, 131, 39, 35, 74, 178, 113, 165, 14, 94, 159, 85, 87, 5, 149, 232, 206, 199, 130, 150, 208, 243, 244, 226, 56, 141, 99, 145, 111, 59, 117, 28, 209, 209, 240, 112, 5, 212, 246, 203, 228, 194, 21, 235, 135, 243, 129, 149, 254, 230, 254, 12, 129, 166, 177, 26, 167, 78, 210, 231, 36, 184, 41, 137, 230, 80, 13, 165, 25, 224, 17, 97, 134, 156, 27, 236, 47, 104, 111, 69, 146, 89, 62, 170, 4, 60, 46, 43, 141, 18, 179, 252, 201, 130, 107, 141, 12, 127, 132, 98, 52, 73, 188, 117, 14, 168, 234, 99, 173, 56, 51, 24, 94, 111, 227, 237, 62, 133, 174, 23, 142, 99, 166, 121, 225, 49, 8, 11, 193, 181, 66, 79, 26, 205, 38, 209, 40, 100, 21, 129, 239, 248, 93, 186, 19, 12, 200, 5, 137, 233, 31, 41, 61, 216, 141, 35, 1, 20, 207, 0, 55, 174, 126, 33, 115, 160, 47, 182, 99, 172, 162, 216, 93, 101, 14, 214, 61, 102, 179, 108, 5, 81, 99, 63, 146, 79, 184, 202, 14, 122, 188, 190, 82, 78, 88, 54, 180, 133, 136, 237, 247, 7, 203, 135, 127, 65, 10, 94, 17, 244, 121, 156, 144, 242, 223, 10, 116, 82, 70, 123, 32, 65, 192, 244, 231, 87, 199, 157, 79, 50, 67, 222, 150, 148, 137, 125, 57, 120, 193, 197, 6, 184, 181, 146, 92, 184, 132, 100, 169, 10, 115, 174, 68, 82, 87, 114, 198, 34, 166, 191, 184, 3, 120, 224, 51, 123, 108, 239, 116, 245, 145, 243, 11, 148, 24, 72, 38, 68, 164, 251, 143, 250, 98, 113, 16, 223, 82, 178, 95, 221, 80, 156, 156, 196, 157, 32, 14, 240, 2, 75, 125, 187, 31, 173, 31, 204, 150, 243, 102, 51, 145, 160, 39, 85, 248, 41, 181, 106, 192, 249, 226, 159, 48, 215, 101, 203, 254, 232, 234, 181, 2, 64, 70, 144, 157, 185, 120, 95, 21, 135, 60, 24, 132, 95, 89, 29, 220, 204, 68, 99, 80, 168, 70, 122, 172, 236, 107, 202, 53, 202, 101, 155, 185, 72>>>>,
  <<"shake256", 0, 136, <<152, 44, 33, 209, 211, 40, 234, 12, 24, 35, 87, 149, 138, 159, 119, 108, 166, 161, 129, 27, 240, 242, 198, 75, 20, 38, 46, 222, 245, 210, 1, 198, 129, 161, 136, 58, 160, 73, 136, 87, 95, 66, 154, 219, 176, 8, 89, 152, 62, 143, 7, 226, 4, 125, 109, 213, 145, 115, 14, 87, 225, 82, 156, 0, 89, 247, 48, 21, 100, 97, 245, 137, 178, 58, 21, 101, 155, 59, 225, 139, 88, 174, 106, 217, 231, 233, 154, 62, 250, 68, 167, 153, 78, 123, 227, 152, 116, 71, 238, 174, 226, 114, 108, 221, 19, 206, 244, 131, 235, 74, 157, 90, 89, 103, 234, 125, 6, 210, 170, 89, 245, 236, 136, 95, 31, 171, 43, 210, 143, 237, 95, 253, 125, 2, 167, 65, 164, 152, 178, 148, 179, 193, 245, 203, 172, 47, 138, 204, 220, 164, 109, 186, 85, 49, 238, 206, 235, 218, 109, 104, 99, 19, 250, 248, 179, 193, 92, 222, 67, 229, 67, 233, 169, 253, 136, 246, 204, 25, 8, 8, 49, 40, 195, 69, 251, 170, 5, 231, 228, 197, 58, 42, 205, 176, 104, 143, 172, 110, 81, 38, 28, 202, 132, 223, 82, 226, 15, 170, 130, 97, 184, 217, 4, 61, 223, 237, 210, 32, 88, 188, 180, 94, 109, 43, 99, 203, 246, 185, 28, 60, 126, 81, 7, 189, 165, 113, 254, 191, 53, 104, 77, 184, 69, 36, 221, 75, 126, 77, 56, 143, 63, 187, 16, 161, 136, 244, 44, 92, 84, 68, 47, 135, 46, 246, 98, 208, 255, 210, 60, 247, 36, 55, 130, 197, 251, 210, 217, 60, 144, 29, 71, 255, 69, 176, 57, 198, 43, 217, 155, 209, 8, 242, 6, 226, 225, 132, 185, 72, 5, 233, 101, 143, 164, 131, 237, 240, 19, 223, 35, 53, 232, 179, 41, 96, 174, 239, 179, 104, 47, 228, 191, 37, 166, 9, 219, 15, 154, 209, 25, 56, 190, 92, 59, 219, 34, 174, 86, 19, 243, 24, 181, 235, 25, 210, 54, 85, 47, 10, 25, 213, 219, 66, 239, 180, 55, 109, 166, 236, 126, 238, 13, 229, 36, 162, 115, 236, 23, 95, 15, 96, 88, 110, 31, 175, 80, 52, 171, 139, 171, 163, 113, 235, 44, 166, 75, 121, 137, 99, 23, 85, 255, 40, 135, 105, 177, 100, 227, 154, 29, 175>>>>,
  <<"shake256", 0, 137, <<172, 166, 94, 157, 74, 39, 54, 16, 68, 213, 112, 210, 7, 18, 171, 93, 111, 138, 67, 191, 192, 249, 212, 239, 11, 111, 82, 255, 126, 96, 117, 39, 17, 151, 101, 125, 11, 146, 83, 190, 23, 49, 146, 31, 218, 44, 72, 14, 161, 176, 59, 38, 79, 201, 207, 137, 75, 225, 218, 101, 137, 10, 220, 152, 9, 206, 127, 153, 123, 34, 141, 137, 47, 27, 48, 170, 29, 32, 51, 142, 106, 80, 203, 141, 140, 56, 3, 85, 115, 30, 124, 10, 195, 1, 232, 28, 119, 81, 245, 203, 90, 242, 141, 22, 166, 173, 141, 248, 103, 60, 44, 42, 17, 65, 121, 176, 154, 4, 186, 207, 77, 198, 180, 116, 222, 51, 185, 137, 154, 170, 88, 141, 53, 84, 156, 94, 239, 55, 146, 66, 33, 102, 105, 227, 36, 58, 89, 47, 241, 166, 132, 8, 135, 107, 34, 203, 138, 122, 115, 224, 1, 198, 201, 237, 43, 185, 21, 221, 112, 66, 144, 111, 8, 242, 251, 166, 132, 187, 121, 129, 154, 175, 159, 21, 36, 238, 10, 92, 227, 111, 108, 77, 93, 191, 239, 62, 232, 71, 44, 125, 11, 249, 207, 97, 91, 163, 91, 252, 7, 21, 38, 174, 130, 73, 85, 57, 85, 196, 142, 115, 243, 184, 43, 51, 59, 42, 58, 91, 232, 176, 202, 171, 123, 139, 0, 254, 157, 157, 122, 113, 135, 150, 155, 35, 157, 58, 58, 148, 200, 8, 20, 253, 44, 116, 249, 117, 77, 125, 105, 138, 102, 23, 14, 20, 42, 227, 79, 158, 44, 112, 71, 120, 102, 59, 197, 234, 103, 115, 64, 178, 233, 101, 79, 199, 207, 10, 79, 15, 34, 10, 165, 29, 19, 150, 203, 171, 195, 225, 233, 115, 44, 255, 103, 27, 27, 219, 208, 4, 56, 67, 42, 135, 181, 16, 177, 61, 104, 201, 198, 138, 188, 138, 255, 185, 126, 71, 93, 157, 169, 97, 31, 201, 212, 173, 232, 151, 218, 5, 188, 110, 153, 244, 218, 175, 107, 19, 233, 97, 243, 233, 118, 209, 130, 63, 25, 148, 208, 139, 236, 27, 247, 145, 44, 185, 45, 117, 144, 229, 228, 2, 12, 177, 113, 198, 224, 133, 88, 36, 237, 41, 146, 230, 216, 7, 74, 159, 3, 172, 23, 26, 62, 98, 254, 72, 242, 6, 133, 8, 63, 177>>>>,
  <<"shake256", 0, 277, <<46, 137, 190, 185, 167, 240, 211, 246, 116, 1, 159, 113, 113, 64, 238, 108, 55, 45, 205, 48, 165, 141, 246, 192, 159, 80, 87, 254, 134, 146, 215, 44, 193, 142, 37, 65, 151, 51, 244, 107, 176, 181, 19, 232, 5, 3, 11, 103, 178, 75, 188, 126, 198, 238, 7, 230, 132, 191, 63, 200, 72, 88, 144, 29, 92, 185, 126, 71, 25, 190, 252, 234, 109, 207, 124, 43, 228, 90, 137, 87, 117, 46, 76, 31, 195, 97, 81, 79, 123, 130, 8, 235, 171, 232, 114, 158, 166, 205, 39, 212, 173, 35, 163, 53, 178, 213, 220, 19, 222, 232, 56, 59, 53, 128, 221, 18, 168, 80, 15, 229, 168, 178, 40, 101, 36, 70, 133, 203, 173, 185, 214, 215, 83, 12, 203, 76, 8, 74, 161, 191, 50, 125, 32, 232, 19, 215, 96, 59, 78, 41, 187, 74, 114, 166, 101, 152, 155, 188, 73, 140, 177, 51, 210, 53, 39, 197, 87, 237, 214, 5, 85, 103, 25, 79, 57, 23, 252, 72, 234, 25, 190, 219, 79, 189, 112, 151, 62, 41, 133, 73, 163, 222, 64, 139, 186, 34, 156, 61, 23, 154, 89, 224, 232, 220, 242, 34, 74, 5, 41, 58, 187, 254, 109, 155, 26, 137, 87, 8, 43, 201, 10, 131, 192, 231, 144, 107, 110, 254, 245, 228, 34, 8, 146, 232, 227, 209, 108, 32, 71, 142, 111, 213, 248, 214, 29, 82, 242, 41, 128, 32, 149, 98, 217, 124, 108, 212, 237, 182, 215, 35, 44, 46, 10, 113, 129, 4, 49, 179, 226, 162, 114, 0, 71, 55, 232, 29, 23, 150, 215, 45, 41, 75, 111, 50, 98, 224, 178, 176, 193, 122, 213, 233, 153, 83, 38, 1, 33, 61, 182, 122, 240, 122, 1, 128, 165, 30, 92, 98, 243, 151, 248, 135, 100, 79, 207, 12, 34, 104, 129, 250, 148, 220, 200, 219, 174, 41, 15, 4, 32, 96, 109, 147, 182, 6, 216, 98, 153, 162, 70, 182, 155, 109, 62, 113, 79, 45, 125, 125, 242, 154, 3, 252, 125, 209, 73, 212, 55, 27, 159, 229, 53, 8, 36, 85, 58, 105, 104, 189, 71, 201, 101, 155, 62, 228, 60, 135, 235, 149, 98, 204, 153, 207, 108, 225, 122, 218, 236, 50, 106, 82, 34, 154, 59, 195, 59, 63, 246, 4, 224, 24>>>>,
  <<"shake256", 0, 300, <<7, 237, 219, 26, 135, 128, 213, 66, 83, 116, 88, 61, 254, 119, 194, 166, 234, 162, 254, 152, 80, 86, 30, 197, 218, 67, 181, 60, 161, 250, 60, 189, 77, 193, 110, 138, 130, 26, 159, 249, 68, 74, 216, 1, 140, 86, 44, 149, 50, 6, 82, 5, 96, 137, 105, 224, 150, 41, 49, 119, 122, 122, 69, 34, 190, 20, 171, 140, 22, 159, 118, 36, 203, 120, 222, 10, 15, 186, 234, 119, 142, 182, 46, 240, 232, 229, 235, 166, 92, 143, 60, 79, 11, 170, 35, 252, 143, 152, 173, 142, 9, 207, 200, 4, 60, 153, 198, 133, 150, 198, 177, 206, 84, 199, 253, 121, 59, 173, 156, 149, 98, 25, 249, 92, 182, 102, 8, 96, 92, 10, 138, 209, 218, 175, 229, 60, 99, 87, 8, 153, 209, 121, 59, 46, 146, 6, 110, 154, 249, 241, 231, 195, 167, 252, 36, 97, 106, 46, 165, 60, 25, 211, 83, 16, 3, 23, 31, 76, 196, 57, 48, 116, 34, 104, 62, 203, 46, 56, 111, 170, 159, 171, 61, 88, 231, 74, 185, 101, 102, 68, 121, 92, 227, 23, 93, 145, 254, 205, 49, 98, 181, 248, 244, 162, 233, 249, 184, 163, 95, 183, 145, 116, 178, 21, 110, 244, 16, 35, 137, 218, 32, 171, 110, 137, 225, 142, 117, 71, 92, 36, 209, 238, 156, 47, 151, 101, 6, 108, 212, 55, 107, 11, 42, 236, 21, 74, 221, 141, 115, 44, 172, 156, 147, 206, 162, 105, 205, 179, 32, 72, 95, 13, 103, 79, 74, 158, 115, 248, 9, 185, 42, 29, 177, 103, 178, 39, 13, 24, 36, 72, 116, 66, 72, 175, 27, 10, 170, 79, 230, 245, 53, 207, 184, 127, 14, 74, 186, 156, 210, 167, 214, 20, 24, 13, 231, 244, 211, 171, 101, 27, 37, 28, 79, 139, 77, 212, 250, 23, 220, 75, 39, 232, 28, 81, 205, 225, 81, 106, 161, 36, 200, 23, 55, 4, 135, 225, 208, 221, 105, 138, 147, 234, 231, 58, 249, 166, 140, 95, 65, 188, 100, 156, 16, 96, 144, 51, 221, 173, 76, 49, 34, 200, 147, 0, 158, 94, 27, 244, 33, 27, 31, 45, 67, 42, 227, 244, 169, 56, 124, 136, 213, 128, 99, 17, 85, 99, 23, 58, 23, 38, 129, 161, 103, 135, 54, 7, 219, 188, 11, 4>>>>,
  <<"sha512t", 224, 0, <<110, 208, 221, 2, 128, 111, 168, 158, 37, 222, 6, 12, 25, 211, 172, 134, 202, 187, 135, 214, 160, 221, 208, 92, 51, 59, 132, 244>>>>,
  <<"sha512t", 224, 3, <<109, 150, 209, 12, 253, 191, 72, 135, 53, 14, 85, 177, 151, 178, 216, 81, 77, 56, 94, 108, 39, 102, 223, 232, 196, 149, 162, 251>>>>,
  <<"sha512t", 224, 111, <<176, 238, 145, 159, 52, 205, 136, 205, 118, 105, 127, 58, 85, 221, 170, 122, 252, 252, 147, 0, 103, 152, 20, 214, 39, 37, 118, 141>>>>,
  <<"sha512t", 224, 112, <<25, 17, 109, 62, 191, 110, 186, 98, 48, 26, 164, 135, 173, 49, 51, 206, 103, 33, 229, 220, 31, 78, 249, 56, 165, 133, 186, 9>>>>,
  <<"sha512t", 224, 127, <<8, 96, 14, 162, 206, 127, 195, 77, 34, 238, 206, 110, 215, 167, 59, 201, 209, 105, 68, 160, 10, 1, 233, 44, 116, 228, 231, 127>>>>,
  <<"sha512t", 224, 128, <<187, 13, 94, 17, 149, 225, 83, 217, 62, 210, 223, 2, 63, 23, 196, 160, 61, 71, 46, 88, 179, 227, 226, 205, 147, 189, 47, 238>>>>,
  <<"sha512t", 224, 300, <<156, 33, 18, 53, 2, 179, 203, 102, 98, 47, 145, 106, 218, 12, 20, 82, 183, 129, 173, 133, 41, 122, 212, 42, 237, 155, 127, 11>>>>,
  <<"sha512t", 256, 0, <<198, 114, 184, 209, 239, 86, 237, 40, 171, 135, 195, 98, 44, 81, 20, 6, 155, 221, 58, 215, 184, 249, 115, 116, 152, 208, 192, 30, 206, 240, 150, 122>>>>,
  <<"sha512t", 256, 3, <<1, 1, 224, 36, 74, 227, 13, 66, 88, 190, 201, 201, 107, 180, 71, 46, 148, 110, 0, 167, 83, 251, 149, 255, 58, 165, 237, 149, 156, 49, 121, 180>>>>,
  <<"sha512t", 256, 111, <<64, 41, 211, 235, 232, 112, 248, 251, 190, 85, 129, 240, 106, 243, 139, 172, 219, 38, 104, 241, 99, 178, 224, 41, 226, 93, 247, 109, 77, 28, 130, 31>>>>,
  <<"sha512t", 256, 112, <<254, 148, 245, 42, 119, 11, 112, 152, 30, 159, 147, 245, 82, 229, 195, 34, 5, 17, 191, 22, 73, 218, 115, 240, 31, 247, 80, 255, 45, 192, 183, 131>>>>,
  <<"sha512t", 256, 127, <<133, 84, 35, 240, 23, 9, 95, 7, 99, 206, 43, 103, 149, 142, 248, 15, 5, 28, 108, 160, 72, 94, 45, 44, 238, 75, 20, 107, 134, 80, 34, 52>>>>,
  <<"sha512t", 256, 128, <<5, 54, 99, 214, 121, 82, 235, 20, 70, 219, 102, 160, 52, 109, 172, 92, 196, 123, 166, 172, 167, 227, 80, 162, 176, 255, 223, 162, 156, 242, 30, 124>>>>,
  <<"sha512t", 256, 300, <<42, 181, 30, 202, 196, 175, 9, 2, 214, 193, 6, 109, 235, 32, 66, 145, 165, 144, 182, 38, 137, 184, 13, 158, 210, 245, 171, 148, 86, 202, 34, 51>>>>>>
\* <<name, message, digest>>, seed 0
XxKats == <<
  <<"xxh32", <<>>, <<2, 204, 93, 5>>>>,
  <<"xxh32", <<97>>, <<85, 13, 116, 86>>>>,
  <<"xxh32", <<97, 98, 99>>, <<50, 209, 83, 255>>>>,
  <<"xxh32", <<78, 111, 98, 111, 100, 121, 32, 105, 110, 115, 112, 101, 99, 116, 115, 32, 116, 104, 101, 32, 115, 112, 97, 109, 109, 105, 115, 104, 32, 114, 101, 112, 101, 116, 105, 116, 105, 111, 110>>, <<226, 41, 59, 47>>>>,
  <<"xxh64", <<>>, <<239, 70, 219, 55, 81, 216, 233, 153>>>>,
  <<"xxh64", <<97>>, <<210, 78, 196, 241, 169, 140, 110, 91>>>>,
  <<"xxh64", <<97, 98, 99>>, <<68, 188, 44, 245, 173, 119, 9, 153>>>>,
  <<"xxh64", <<78, 111, 98, 111, 100, 121, 32, 105, 110, 115, 112, 101, 99, 116, 115, 32, 116, 104, 101, 32, 115, 112, 97, 109, 109, 105, 115, 104, 32, 114, 101, 112, 101, 116, 105, 116, 105, 111, 110>>, <<251, 206, 168, 60, 138, 55, 139, 241>>>>>>
=============================================================================
