------------------------------- MODULE Curves -------------------------------
\* generated by tools/gen_curves.py: SEC 2 curves 192r1 .. 521r1, 192k1 .. 256k1, RFC 5639 P256r1 .. P512r1
\* in the order of the library's group numbers
EXTENDS BigNum
CurveTab == <<
  [p |-> <<0, <<255, 255, 255, 255, 255, 255, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>>>,
   a |-> <<0, <<252, 255, 255, 255, 255, 255, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>>>,
   b |-> <<0, <<177, 185, 70, 193, 236, 222, 184, 254, 73, 48, 36, 114, 171, 233, 167, 15, 231, 128, 156, 229, 25, 5, 33, 100>>>>,
   gx |-> <<0, <<18, 16, 255, 130, 253, 10, 255, 244, 0, 136, 161, 67, 235, 32, 191, 124, 246, 144, 48, 176, 14, 168, 141, 24>>>>,
   gy |-> <<0, <<17, 72, 121, 30, 161, 119, 249, 115, 213, 205, 36, 107, 237, 17, 16, 99, 120, 218, 200, 255, 149, 43, 25, 7>>>>,
   n |-> <<0, <<49, 40, 210, 180, 177, 201, 107, 20, 54, 248, 222, 153, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>>>],
  [p |-> <<0, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>>>,
   a |-> <<0, <<254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>>>,
   b |-> <<0, <<180, 255, 85, 35, 67, 57, 11, 39, 186, 216, 191, 215, 183, 176, 68, 80, 86, 50, 65, 245, 171, 179, 4, 12, 133, 10, 5, 180>>>>,
   gx |-> <<0, <<33, 29, 92, 17, 214, 128, 50, 52, 34, 17, 194, 86, 211, 193, 3, 74, 185, 144, 19, 50, 127, 191, 180, 107, 189, 12, 14, 183>>>>,
   gy |-> <<0, <<52, 126, 0, 133, 153, 129, 213, 68, 100, 71, 7, 90, 160, 117, 67, 205, 230, 223, 34, 76, 251, 35, 247, 181, 136, 99, 55, 189>>>>,
   n |-> <<0, <<61, 42, 92, 92, 69, 41, 221, 19, 62, 240, 184, 224, 162, 22, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>>>],
  [p |-> <<0, <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 255, 255, 255, 255>>>>,
   a |-> <<0, <<252, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 255, 255, 255, 255>>>>,
   b |-> <<0, <<75, 96, 210, 39, 62, 60, 206, 59, 246, 176, 83, 204, 176, 6, 29, 101, 188, 134, 152, 118, 85, 189, 235, 179, 231, 147, 58, 170, 216, 53, 198, 90>>>>,
   gx |-> <<0, <<150, 194, 152, 216, 69, 57, 161, 244, 160, 51, 235, 45, 129, 125, 3, 119, 242, 64, 164, 99, 229, 230, 188, 248, 71, 66, 44, 225, 242, 209, 23, 107>>>>,
   gy |-> <<0, <<245, 81, 191, 55, 104, 64, 182, 203, 206, 94, 49, 107, 87, 51, 206, 43, 22, 158, 15, 124, 74, 235, 231, 142, 155, 127, 26, 254, 226, 66, 227, 79>>>>,
   n |-> <<0, <<81, 37, 99, 252, 194, 202, 185, 243, 132, 158, 23, 167, 173, 250, 230, 188, 255, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 0, 255, 255, 255, 255>>>>],
  [p |-> <<0, <<255, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>>>,
   a |-> <<0, <<252, 255, 255, 255, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>>>,
   b |-> <<0, <<239, 42, 236, 211, 237, 200, 133, 42, 157, 209, 46, 138, 141, 57, 86, 198, 90, 135, 19, 80, 143, 8, 20, 3, 18, 65, 129, 254, 110, 156, 29, 24, 25, 45, 248, 227, 107, 5, 142, 152, 228, 231, 62, 226, 167, 47, 49, 179>>>>,
   gx |-> <<0, <<183, 10, 118, 114, 56, 94, 84, 58, 108, 41, 85, 191, 93, 242, 2, 85, 56, 42, 84, 130, 224, 65, 247, 89, 152, 155, 167, 139, 98, 59, 29, 110, 116, 173, 32, 243, 30, 199, 177, 142, 55, 5, 139, 190, 34, 202, 135, 170>>>>,
   gy |-> <<0, <<95, 14, 234, 144, 124, 29, 67, 122, 157, 129, 126, 29, 206, 177, 96, 10, 192, 184, 240, 181, 19, 49, 218, 233, 124, 20, 154, 40, 189, 29, 244, 248, 41, 220, 146, 146, 191, 152, 158, 93, 111, 44, 38, 150, 74, 222, 23, 54>>>>,
   n |-> <<0, <<115, 41, 197, 204, 106, 25, 236, 236, 122, 167, 176, 72, 178, 13, 26, 88, 223, 45, 55, 244, 129, 77, 99, 199, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>>>],
  [p |-> <<0, <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>>>,
   a |-> <<0, <<252, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>>>,
   b |-> <<0, <<0, 63, 80, 107, 212, 31, 69, 239, 241, 52, 44, 61, 136, 223, 115, 53, 7, 191, 177, 59, 189, 192, 82, 22, 123, 147, 126, 236, 81, 57, 25, 86, 225, 9, 241, 142, 145, 137, 180, 184, 243, 21, 179, 153, 91, 114, 218, 162, 238, 64, 133, 182, 160, 33, 154, 146, 31, 154, 28, 142, 97, 185, 62, 149, 81>>>>,
   gx |-> <<0, <<102, 189, 229, 194, 49, 126, 126, 249, 155, 66, 106, 133, 193, 179, 72, 51, 222, 168, 255, 162, 39, 193, 29, 254, 40, 89, 231, 239, 119, 94, 75, 161, 186, 61, 77, 107, 96, 175, 40, 248, 33, 181, 63, 5, 57, 129, 100, 156, 66, 180, 149, 35, 102, 203, 62, 158, 205, 233, 4, 4, 183, 6, 142, 133, 198>>>>,
   gy |-> <<0, <<80, 102, 209, 159, 118, 148, 190, 136, 64, 194, 114, 162, 134, 112, 60, 53, 97, 7, 173, 63, 1, 185, 80, 197, 64, 38, 244, 94, 153, 114, 238, 151, 44, 102, 62, 39, 23, 189, 175, 23, 104, 68, 155, 87, 73, 68, 245, 152, 217, 27, 125, 44, 180, 95, 138, 92, 4, 192, 59, 154, 120, 106, 41, 57, 24, 1>>>>,
   n |-> <<0, <<9, 100, 56, 145, 30, 183, 111, 187, 174, 71, 156, 137, 184, 201, 181, 59, 208, 165, 9, 247, 72, 1, 204, 127, 107, 150, 47, 191, 131, 135, 134, 81, 250, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1>>>>],
  [p |-> <<0, <<55, 238, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>>>,
   a |-> <<0, <<>>>>,
   b |-> <<0, <<3>>>>,
   gx |-> <<0, <<125, 108, 224, 234, 177, 209, 165, 29, 52, 244, 183, 128, 2, 125, 176, 38, 174, 233, 87, 192, 14, 241, 79, 219>>>>,
   gy |-> <<0, <<157, 47, 94, 217, 136, 170, 130, 64, 52, 134, 190, 21, 208, 99, 65, 132, 167, 40, 86, 156, 109, 47, 47, 155>>>>,
   n |-> <<0, <<141, 253, 222, 116, 106, 70, 105, 15, 23, 252, 242, 38, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>>>],
  [p |-> <<0, <<109, 229, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>>>,
   a |-> <<0, <<>>>>,
   b |-> <<0, <<5>>>>,
   gx |-> <<0, <<92, 164, 183, 182, 14, 101, 126, 15, 169, 117, 112, 228, 233, 103, 164, 105, 161, 40, 252, 48, 223, 153, 240, 77, 51, 91, 69, 161>>>>,
   gy |-> <<0, <<165, 97, 109, 85, 219, 75, 202, 226, 89, 189, 176, 192, 247, 25, 227, 247, 214, 251, 202, 130, 66, 52, 186, 127, 237, 159, 8, 126>>>>,
   n |-> <<0, <<247, 177, 159, 118, 113, 169, 240, 202, 132, 97, 236, 210, 232, 220, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>>>],
  [p |-> <<0, <<47, 252, 255, 255, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>>>,
   a |-> <<0, <<>>>>,
   b |-> <<0, <<7>>>>,
   gx |-> <<0, <<152, 23, 248, 22, 91, 129, 242, 89, 217, 40, 206, 45, 219, 252, 155, 2, 7, 11, 135, 206, 149, 98, 160, 85, 172, 187, 220, 249, 126, 102, 190, 121>>>>,
   gy |-> <<0, <<184, 212, 16, 251, 143, 208, 71, 156, 25, 84, 133, 166, 72, 180, 23, 253, 168, 8, 17, 14, 252, 251, 164, 93, 101, 196, 163, 38, 119, 218, 58, 72>>>>,
   n |-> <<0, <<65, 65, 54, 208, 140, 94, 210, 191, 59, 160, 72, 175, 230, 220, 174, 186, 254, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>>>],
  [p |-> <<0, <<119, 83, 110, 31, 29, 72, 19, 32, 40, 32, 38, 213, 35, 246, 59, 110, 114, 141, 131, 157, 144, 10, 102, 62, 188, 169, 238, 161, 219, 87, 251, 169>>>>,
   a |-> <<0, <<217, 181, 48, 243, 68, 75, 74, 233, 108, 92, 220, 38, 193, 85, 128, 251, 231, 255, 122, 65, 48, 117, 246, 238, 87, 48, 44, 252, 117, 9, 90, 125>>>>,
   b |-> <<0, <<182, 7, 140, 255, 24, 220, 204, 107, 206, 225, 247, 92, 41, 22, 132, 149, 191, 124, 215, 187, 217, 181, 48, 243, 68, 75, 74, 233, 108, 92, 220, 38>>>>,
   gx |-> <<0, <<98, 50, 206, 154, 189, 83, 68, 58, 194, 35, 189, 227, 225, 39, 222, 185, 175, 183, 129, 252, 47, 72, 75, 44, 203, 87, 126, 203, 185, 174, 210, 139>>>>,
   gy |-> <<0, <<151, 105, 4, 47, 199, 84, 29, 92, 84, 142, 237, 45, 19, 69, 119, 194, 201, 29, 97, 20, 26, 70, 248, 151, 253, 196, 218, 195, 53, 248, 126, 84>>>>,
   n |-> <<0, <<167, 86, 72, 151, 130, 14, 30, 144, 247, 166, 97, 181, 163, 122, 57, 140, 113, 141, 131, 157, 144, 10, 102, 62, 188, 169, 238, 161, 219, 87, 251, 169>>>>],
  [p |-> <<0, <<83, 236, 7, 49, 19, 0, 71, 135, 113, 26, 29, 144, 41, 167, 211, 172, 35, 17, 183, 127, 25, 218, 177, 18, 180, 86, 84, 237, 9, 113, 47, 21, 223, 65, 230, 80, 126, 111, 93, 15, 40, 109, 56, 163, 130, 30, 185, 140>>>>,
   a |-> <<0, <<38, 40, 206, 34, 221, 199, 168, 4, 235, 212, 58, 80, 74, 129, 165, 138, 15, 249, 145, 186, 239, 101, 145, 19, 135, 39, 178, 79, 142, 162, 190, 194, 160, 175, 5, 206, 10, 8, 114, 60, 12, 21, 140, 61, 198, 130, 195, 123>>>>,
   b |-> <<0, <<17, 76, 80, 250, 150, 134, 183, 58, 148, 201, 219, 149, 2, 57, 180, 124, 213, 98, 235, 62, 165, 14, 136, 46, 166, 210, 220, 7, 225, 125, 183, 47, 124, 68, 240, 22, 84, 181, 57, 139, 38, 40, 206, 34, 221, 199, 168, 4>>>>,
   gx |-> <<0, <<30, 175, 212, 71, 226, 178, 135, 239, 170, 70, 214, 54, 52, 224, 38, 232, 232, 16, 189, 12, 254, 202, 127, 219, 227, 79, 241, 126, 231, 163, 71, 136, 107, 63, 193, 183, 129, 58, 166, 162, 255, 69, 207, 104, 240, 100, 28, 29>>>>,
   gy |-> <<0, <<21, 83, 60, 38, 65, 3, 130, 66, 17, 129, 145, 119, 33, 70, 70, 14, 40, 41, 145, 249, 79, 5, 156, 225, 100, 88, 236, 254, 41, 11, 183, 98, 82, 213, 207, 149, 142, 235, 177, 92, 164, 194, 249, 32, 117, 29, 190, 138>>>>,
   n |-> <<0, <<101, 101, 4, 233, 2, 50, 136, 59, 16, 195, 127, 107, 175, 182, 58, 207, 167, 37, 4, 172, 108, 110, 22, 31, 179, 86, 84, 237, 9, 113, 47, 21, 223, 65, 230, 80, 126, 111, 93, 15, 40, 109, 56, 163, 130, 30, 185, 140>>>>],
  [p |-> <<0, <<243, 72, 58, 88, 86, 96, 170, 40, 133, 198, 130, 45, 47, 255, 129, 40, 230, 128, 163, 230, 42, 161, 205, 174, 66, 104, 198, 155, 0, 155, 77, 125, 113, 8, 51, 112, 202, 156, 99, 214, 14, 210, 201, 179, 179, 141, 48, 203, 7, 252, 201, 51, 174, 230, 212, 63, 139, 196, 233, 219, 184, 157, 221, 170>>>>,
   a |-> <<0, <<202, 148, 252, 119, 77, 172, 193, 231, 185, 199, 242, 43, 167, 23, 17, 127, 181, 200, 154, 139, 201, 241, 46, 10, 161, 58, 37, 168, 90, 93, 237, 45, 188, 99, 152, 234, 202, 65, 52, 168, 16, 22, 249, 61, 141, 221, 203, 148, 197, 76, 35, 172, 69, 113, 50, 226, 137, 59, 96, 139, 49, 163, 48, 120>>>>,
   b |-> <<0, <<35, 247, 22, 128, 99, 189, 9, 40, 221, 229, 186, 94, 183, 80, 64, 152, 103, 62, 8, 220, 202, 148, 252, 119, 77, 172, 193, 231, 185, 199, 242, 43, 167, 23, 17, 127, 181, 200, 154, 139, 201, 241, 46, 10, 161, 58, 37, 168, 90, 93, 237, 45, 188, 99, 152, 234, 202, 65, 52, 168, 16, 22, 249, 61>>>>,
   gx |-> <<0, <<34, 248, 185, 188, 9, 34, 53, 139, 104, 94, 106, 64, 71, 80, 109, 124, 95, 125, 185, 147, 123, 104, 209, 80, 141, 212, 208, 226, 120, 31, 59, 255, 142, 9, 208, 244, 238, 98, 59, 180, 193, 22, 217, 181, 112, 159, 237, 133, 147, 106, 76, 156, 46, 50, 33, 90, 100, 217, 46, 216, 189, 228, 174, 129>>>>,
   gy |-> <<0, <<146, 8, 216, 58, 15, 30, 205, 120, 6, 84, 240, 168, 47, 43, 202, 209, 174, 99, 39, 138, 216, 75, 202, 91, 94, 72, 95, 74, 73, 222, 220, 178, 17, 129, 31, 136, 91, 197, 0, 160, 26, 123, 165, 36, 0, 247, 9, 242, 253, 34, 120, 207, 169, 191, 234, 192, 236, 50, 99, 86, 93, 56, 222, 125>>>>,
   n |-> <<0, <<105, 0, 169, 156, 130, 150, 135, 181, 221, 218, 93, 8, 129, 211, 177, 29, 71, 16, 172, 127, 25, 97, 134, 65, 25, 38, 169, 76, 65, 92, 62, 85, 112, 8, 51, 112, 202, 156, 99, 214, 14, 210, 201, 179, 179, 141, 48, 203, 7, 252, 201, 51, 174, 230, 212, 63, 139, 196, 233, 219, 184, 157, 221, 170>>>>]>>
=============================================================================
