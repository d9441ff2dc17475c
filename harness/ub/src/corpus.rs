// @generated by rt probe corpus and pq probe corpus
pub const RUNTIME: &[(&str, &[&[u8]])] = &[
    ("bool", &[&[1], &[2]]),
    ("i8", &[&[3], &[10], &[0]]),
    ("i16", &[&[10], &[144, 2], &[0]]),
    ("i32", &[&[22], &[244, 123], &[0]]),
    ("i64", &[&[26], &[160, 137, 122], &[0]]),
    ("f64", &[&[0, 0, 0, 0, 0, 0, 224, 63], &[0, 0, 0, 0, 0, 0, 248, 63], &[0, 0, 0, 0, 0, 0, 0, 0]]),
    ("Vec<u8>", &[&[3, 255, 0, 128], &[3, 255, 1, 128], &[0]]),
    ("String", &[&[2, 115, 48], &[2, 115, 49], &[0]]),
    ("Cow<[u8]>", &[&[3, 255, 0, 128], &[3, 255, 1, 128], &[0]]),
    ("Cow<str>", &[&[2, 115, 48], &[2, 115, 49], &[0]]),
    ("Box<str>", &[&[2, 115, 48], &[2, 115, 49], &[0]]),
    ("Rc<str>", &[&[2, 115, 48], &[2, 115, 49], &[0]]),
    ("Arc<str>", &[&[2, 115, 48], &[2, 115, 49], &[0]]),
    ("Vec<bool>", &[&[34, 2, 1], &[34, 1, 2], &[2]]),
    ("Vec<i8>", &[&[35, 10, 17], &[35, 31, 38], &[3]]),
    ("Vec<i16>", &[&[36, 144, 2, 150, 4], &[36, 162, 8, 168, 10], &[4]]),
    ("Vec<i32>", &[&[37, 244, 123, 210, 247, 1], &[37, 142, 239, 3, 236, 234, 4], &[5]]),
    ("Vec<i64>", &[&[38, 160, 137, 122, 166, 146, 244, 1], &[38, 178, 164, 232, 3, 184, 173, 226, 4], &[6]]),
    ("Vec<f64>", &[&[39, 0, 0, 0, 0, 0, 0, 248, 63, 0, 0, 0, 0, 0, 0, 4, 64], &[39, 0, 0, 0, 0, 0, 0, 18, 64, 0, 0, 0, 0, 0, 0, 22, 64], &[7]]),
    ("Vec<String>", &[&[40, 2, 115, 49, 2, 115, 50], &[40, 2, 115, 52, 2, 115, 53], &[8]]),
    ("Vec<Vec<u8>>", &[&[40, 3, 255, 1, 128, 3, 255, 2, 128], &[40, 3, 255, 4, 128, 3, 255, 5, 128], &[8]]),
    ("Vec<Vec<i32>>", &[&[41, 37, 142, 239, 3, 236, 234, 4, 37, 168, 226, 6, 134, 222, 7], &[41, 37, 220, 200, 12, 186, 196, 13, 37, 246, 187, 15, 212, 183, 16], &[9]]),
    ("Vec<Vec<bool>>", &[&[41, 34, 1, 2, 34, 2, 1], &[41, 34, 2, 1, 34, 1, 2], &[9]]),
    ("Vec<Vec<Vec<i64>>>", &[&[41, 41, 38, 232, 245, 178, 12, 238, 254, 172, 13, 38, 250, 144, 161, 15, 128, 154, 155, 16, 41, 38, 158, 199, 253, 20, 164, 208, 247, 21, 38, 176, 226, 235, 23, 182, 235, 229, 24], &[41, 41, 38, 138, 234, 146, 38, 144, 243, 140, 39, 38, 156, 133, 129, 41, 162, 142, 251, 41, 41, 38, 192, 187, 221, 46, 198, 196, 215, 47, 38, 210, 214, 203, 49, 216, 223, 197, 50], &[9]]),
    ("Vec<Small>", &[&[44, 21, 176, 243, 2, 24, 2, 115, 52, 0, 21, 236, 234, 4, 24, 2, 115, 54, 0], &[44, 21, 228, 217, 8, 24, 3, 115, 49, 48, 0, 21, 160, 209, 10, 24, 3, 115, 49, 50, 0], &[12]]),
    ("Vec<Choice>", &[&[44, 40, 2, 115, 50, 0, 50, 0], &[44, 87, 0, 0, 0, 0, 0, 0, 22, 64, 0, 9, 40, 37, 144, 175, 18, 238, 170, 19, 0], &[12]]),
    ("Vec<Color>", &[&[37, 2, 14], &[37, 9, 0], &[5]]),
    ("Vec<Empty>", &[&[44, 0, 0], &[12]]),
    ("Vec<Box<bool>>", &[&[34, 2, 1], &[34, 1, 2], &[2]]),
    ("Vec<Arc<bool>>", &[&[34, 2, 1], &[34, 1, 2], &[2]]),
    ("Vec<Rc<Small>>", &[&[44, 21, 176, 243, 2, 24, 2, 115, 52, 0, 21, 236, 234, 4, 24, 2, 115, 54, 0], &[44, 21, 228, 217, 8, 24, 3, 115, 49, 48, 0, 21, 160, 209, 10, 24, 3, 115, 49, 50, 0], &[12]]),
    ("Vec<Arc<str>>", &[&[40, 2, 115, 49, 2, 115, 50], &[40, 2, 115, 52, 2, 115, 53], &[8]]),
    ("Vec<Box<str>>", &[&[40, 2, 115, 49, 2, 115, 50], &[40, 2, 115, 52, 2, 115, 53], &[8]]),
    ("Vec<Rc<String>>", &[&[40, 2, 115, 49, 2, 115, 50], &[40, 2, 115, 52, 2, 115, 53], &[8]]),
    ("Vec<Option<i32>>", &[&[37, 244, 123, 210, 247, 1], &[37, 142, 239, 3, 236, 234, 4], &[5]]),
    ("Vec<HugeElement>", &[&[44, 22, 172, 155, 238, 2, 22, 178, 164, 232, 3, 22, 184, 173, 226, 4, 22, 190, 182, 220, 5, 24, 2, 115, 55, 24, 2, 115, 56, 24, 2, 115, 57, 24, 3, 115, 49, 48, 0, 22, 184, 173, 226, 4, 22, 190, 182, 220, 5, 22, 196, 191, 214, 6, 22, 202, 200, 208, 7, 24, 2, 115, 57, 24, 3, 115, 49, 48, 24, 3, 115, 49, 49, 24, 3, 115, 49, 50, 0], &[44, 22, 208, 209, 202, 8, 22, 214, 218, 196, 9, 22, 220, 227, 190, 10, 22, 226, 236, 184, 11, 24, 3, 115, 49, 51, 24, 3, 115, 49, 52, 24, 3, 115, 49, 53, 24, 3, 115, 49, 54, 0, 22, 220, 227, 190, 10, 22, 226, 236, 184, 11, 22, 232, 245, 178, 12, 22, 238, 254, 172, 13, 24, 3, 115, 49, 53, 24, 3, 115, 49, 54, 24, 3, 115, 49, 55, 24, 3, 115, 49, 56, 0], &[12]]),
    ("Option<bool>", &[&[1], &[2]]),
    ("Option<i32>", &[&[22], &[244, 123], &[0]]),
    ("Option<f64>", &[&[0, 0, 0, 0, 0, 0, 224, 63], &[0, 0, 0, 0, 0, 0, 248, 63], &[0, 0, 0, 0, 0, 0, 0, 0]]),
    ("Option<String>", &[&[2, 115, 48], &[2, 115, 49], &[0]]),
    ("Option<Vec<bool>>", &[&[34, 2, 1], &[34, 1, 2], &[2]]),
    ("Option<Small>", &[&[21, 244, 123, 24, 2, 115, 50, 0], &[21, 176, 243, 2, 24, 2, 115, 52, 0], &[21, 0, 0]]),
    ("Option<Box<Choice>>", &[&[21, 244, 123, 0], &[40, 2, 115, 50, 0], &[21, 0, 0]]),
    ("Option<Box<bool>>", &[&[1], &[2]]),
    ("Box<bool>", &[&[1], &[2]]),
    ("Rc<bool>", &[&[1], &[2]]),
    ("Arc<bool>", &[&[1], &[2]]),
    ("Box<i32>", &[&[22], &[244, 123], &[0]]),
    ("Rc<i64>", &[&[26], &[160, 137, 122], &[0]]),
    ("Arc<i16>", &[&[10], &[144, 2], &[0]]),
    ("Box<String>", &[&[2, 115, 48], &[2, 115, 49], &[0]]),
    ("Rc<Vec<u8>>", &[&[3, 255, 0, 128], &[3, 255, 1, 128], &[0]]),
    ("Box<Vec<bool>>", &[&[34, 2, 1], &[34, 1, 2], &[2]]),
    ("Box<Small>", &[&[21, 244, 123, 24, 2, 115, 50, 0], &[21, 176, 243, 2, 24, 2, 115, 52, 0], &[21, 0, 0]]),
    ("Rc<Choice>", &[&[21, 244, 123, 0], &[40, 2, 115, 50, 0], &[21, 0, 0]]),
    ("Arc<AllOpt>", &[&[18, 19, 17, 20, 156, 6, 21, 142, 239, 3, 22, 184, 173, 226, 4, 23, 0, 0, 0, 0, 0, 0, 26, 64, 24, 2, 115, 55, 24, 3, 255, 8, 128, 21, 9, 28, 21, 204, 166, 20, 24, 3, 115, 50, 50, 0, 25, 37, 146, 239, 32, 240, 234, 33, 25, 34, 2, 1, 25, 40, 3, 115, 52, 48, 3, 115, 52, 49, 25, 40, 3, 255, 43, 128, 3, 255, 44, 128, 25, 44, 21, 188, 243, 89, 24, 3, 115, 57, 52, 0, 21, 248, 234, 91, 24, 3, 115, 57, 54, 0, 28, 76, 21, 240, 234, 33, 24, 3, 115, 51, 54, 0, 0, 25, 39, 0, 0, 0, 0, 0, 64, 74, 64, 0, 0, 0, 0, 0, 192, 74, 64, 25, 37, 0, 2, 18, 0], &[18, 19, 31, 20, 168, 10, 21, 202, 230, 5, 22, 196, 191, 214, 6, 23, 0, 0, 0, 0, 0, 0, 33, 64, 24, 2, 115, 57, 24, 3, 255, 10, 128, 21, 2, 28, 21, 196, 149, 24, 24, 3, 115, 50, 54, 0, 25, 37, 198, 213, 38, 164, 209, 39, 25, 34, 2, 1, 25, 40, 3, 115, 52, 54, 3, 115, 52, 55, 25, 40, 3, 255, 49, 128, 3, 255, 50, 128, 25, 44, 21, 164, 192, 101, 24, 4, 115, 49, 48, 54, 0, 21, 224, 183, 103, 24, 4, 115, 49, 48, 56, 0, 28, 9, 40, 37, 226, 136, 56, 192, 132, 57, 0, 25, 39, 0, 0, 0, 0, 0, 64, 77, 64, 0, 0, 0, 0, 0, 192, 77, 64, 25, 37, 2, 14, 18, 0], &[0]]),
    ("Box<Rc<Arc<i32>>>", &[&[22], &[244, 123], &[0]]),
    ("Box<Option<i32>>", &[&[22], &[244, 123], &[0]]),
    ("Color", &[&[0], &[2]]),
    ("Zero", &[&[6], &[0]]),
    ("Empty", &[&[0]]),
    ("Small", &[&[21, 244, 123, 24, 2, 115, 50, 0], &[21, 176, 243, 2, 24, 2, 115, 52, 0], &[21, 0, 0]]),
    ("Choice", &[&[21, 244, 123, 0], &[40, 2, 115, 50, 0], &[21, 0, 0]]),
    ("OneFlag", &[&[18, 0], &[17, 0]]),
    ("Late", &[&[92, 0, 0], &[22, 166, 146, 244, 1, 0]]),
    ("AllReq", &[&[18, 19, 17, 20, 156, 6, 21, 142, 239, 3, 22, 184, 173, 226, 4, 23, 0, 0, 0, 0, 0, 0, 26, 64, 24, 2, 115, 55, 24, 3, 255, 8, 128, 21, 9, 28, 21, 204, 166, 20, 24, 3, 115, 50, 50, 0, 25, 37, 146, 239, 32, 240, 234, 33, 25, 34, 2, 1, 25, 40, 3, 115, 52, 48, 3, 115, 52, 49, 25, 40, 3, 255, 43, 128, 3, 255, 44, 128, 25, 44, 21, 188, 243, 89, 24, 3, 115, 57, 52, 0, 21, 248, 234, 91, 24, 3, 115, 57, 54, 0, 28, 76, 21, 240, 234, 33, 24, 3, 115, 51, 54, 0, 0, 25, 39, 0, 0, 0, 0, 0, 64, 74, 64, 0, 0, 0, 0, 0, 192, 74, 64, 25, 37, 0, 2, 25, 44, 12, 42, 0, 0, 8, 5, 3, 255, 60, 128, 0, 25, 35, 46, 53, 25, 38, 154, 195, 132, 61, 160, 204, 254, 61, 25, 36, 156, 137, 1, 162, 139, 1, 0], &[18, 19, 31, 20, 168, 10, 21, 202, 230, 5, 22, 196, 191, 214, 6, 23, 0, 0, 0, 0, 0, 0, 33, 64, 24, 2, 115, 57, 24, 3, 255, 10, 128, 21, 2, 28, 21, 196, 149, 24, 24, 3, 115, 50, 54, 0, 25, 37, 198, 213, 38, 164, 209, 39, 25, 34, 2, 1, 25, 40, 3, 115, 52, 54, 3, 115, 52, 55, 25, 40, 3, 255, 49, 128, 3, 255, 50, 128, 25, 44, 21, 164, 192, 101, 24, 4, 115, 49, 48, 54, 0, 21, 224, 183, 103, 24, 4, 115, 49, 48, 56, 0, 28, 9, 40, 37, 226, 136, 56, 192, 132, 57, 0, 25, 39, 0, 0, 0, 0, 0, 64, 77, 64, 0, 0, 0, 0, 0, 192, 77, 64, 25, 37, 2, 14, 25, 44, 4, 50, 144, 133, 1, 0, 21, 210, 230, 63, 0, 25, 35, 88, 95, 25, 38, 190, 249, 224, 66, 196, 130, 219, 67, 25, 36, 192, 149, 1, 198, 151, 1, 0], &[18, 19, 0, 20, 0, 21, 0, 22, 0, 23, 0, 0, 0, 0, 0, 0, 0, 0, 24, 0, 24, 0, 21, 0, 28, 21, 0, 0, 25, 5, 25, 2, 25, 8, 25, 8, 25, 12, 28, 21, 0, 0, 25, 7, 25, 5, 25, 12, 25, 3, 25, 6, 25, 4, 0]]),
    ("AllOpt", &[&[18, 19, 17, 20, 156, 6, 21, 142, 239, 3, 22, 184, 173, 226, 4, 23, 0, 0, 0, 0, 0, 0, 26, 64, 24, 2, 115, 55, 24, 3, 255, 8, 128, 21, 9, 28, 21, 204, 166, 20, 24, 3, 115, 50, 50, 0, 25, 37, 146, 239, 32, 240, 234, 33, 25, 34, 2, 1, 25, 40, 3, 115, 52, 48, 3, 115, 52, 49, 25, 40, 3, 255, 43, 128, 3, 255, 44, 128, 25, 44, 21, 188, 243, 89, 24, 3, 115, 57, 52, 0, 21, 248, 234, 91, 24, 3, 115, 57, 54, 0, 28, 76, 21, 240, 234, 33, 24, 3, 115, 51, 54, 0, 0, 25, 39, 0, 0, 0, 0, 0, 64, 74, 64, 0, 0, 0, 0, 0, 192, 74, 64, 25, 37, 0, 2, 18, 0], &[18, 19, 31, 20, 168, 10, 21, 202, 230, 5, 22, 196, 191, 214, 6, 23, 0, 0, 0, 0, 0, 0, 33, 64, 24, 2, 115, 57, 24, 3, 255, 10, 128, 21, 2, 28, 21, 196, 149, 24, 24, 3, 115, 50, 54, 0, 25, 37, 198, 213, 38, 164, 209, 39, 25, 34, 2, 1, 25, 40, 3, 115, 52, 54, 3, 115, 52, 55, 25, 40, 3, 255, 49, 128, 3, 255, 50, 128, 25, 44, 21, 164, 192, 101, 24, 4, 115, 49, 48, 54, 0, 21, 224, 183, 103, 24, 4, 115, 49, 48, 56, 0, 28, 9, 40, 37, 226, 136, 56, 192, 132, 57, 0, 25, 39, 0, 0, 0, 0, 0, 64, 77, 64, 0, 0, 0, 0, 0, 192, 77, 64, 25, 37, 2, 14, 18, 0], &[0]]),
    ("WrapReq", &[&[18, 17, 18, 21, 142, 239, 3, 24, 2, 115, 53, 24, 2, 115, 54, 24, 2, 115, 55, 24, 2, 115, 56, 24, 2, 115, 57, 28, 21, 204, 166, 20, 24, 3, 115, 50, 50, 0, 28, 21, 136, 158, 22, 24, 3, 115, 50, 52, 0, 28, 4, 50, 216, 26, 0, 23, 0, 0, 0, 0, 0, 0, 43, 64, 21, 9, 24, 3, 255, 15, 128, 0], &[18, 17, 18, 21, 202, 230, 5, 24, 2, 115, 55, 24, 2, 115, 56, 24, 2, 115, 57, 24, 3, 115, 49, 48, 24, 3, 115, 49, 49, 28, 21, 196, 149, 24, 24, 3, 115, 50, 54, 0, 28, 21, 128, 141, 26, 24, 3, 115, 50, 56, 0, 28, 40, 3, 115, 49, 53, 0, 23, 0, 0, 0, 0, 0, 0, 47, 64, 21, 2, 24, 3, 255, 17, 128, 0], &[18, 18, 18, 21, 0, 24, 0, 24, 0, 24, 0, 24, 0, 24, 0, 28, 21, 0, 0, 28, 21, 0, 0, 28, 21, 0, 0, 23, 0, 0, 0, 0, 0, 0, 0, 0, 21, 0, 24, 0, 0]]),
    ("WrapOpt", &[&[18, 17, 18, 21, 142, 239, 3, 24, 2, 115, 53, 40, 2, 115, 54, 24, 2, 115, 55, 24, 2, 115, 56, 28, 21, 144, 175, 18, 24, 3, 115, 50, 48, 0, 28, 21, 204, 166, 20, 24, 3, 115, 50, 50, 0, 28, 3, 48, 87, 0, 0], &[18, 17, 18, 21, 202, 230, 5, 24, 2, 115, 55, 40, 2, 115, 56, 24, 2, 115, 57, 24, 3, 115, 49, 48, 28, 21, 136, 158, 22, 24, 3, 115, 50, 52, 0, 28, 21, 196, 149, 24, 24, 3, 115, 50, 54, 0, 28, 21, 186, 196, 13, 0, 0], &[0]]),
    ("Bytes", &[&[19, 10, 19, 17, 25, 35, 73, 80, 0], &[19, 24, 19, 31, 25, 35, 115, 122, 0], &[19, 0, 41, 3, 0]]),
    ("Nested", &[&[28, 21, 176, 243, 2, 24, 2, 115, 52, 0, 28, 28, 0, 28, 12, 42, 0, 0, 28, 18, 19, 115, 20, 240, 34, 21, 178, 179, 17, 22, 140, 172, 143, 18, 23, 0, 0, 0, 0, 0, 128, 52, 64, 24, 3, 115, 50, 49, 24, 3, 255, 22, 128, 21, 254, 255, 255, 255, 15, 28, 21, 148, 175, 47, 24, 3, 115, 53, 48, 0, 25, 37, 254, 187, 73, 220, 183, 74, 25, 34, 2, 1, 25, 40, 3, 115, 56, 50, 3, 115, 56, 51, 25, 40, 3, 255, 85, 128, 3, 255, 86, 128, 25, 44, 21, 148, 141, 171, 1, 24, 4, 115, 49, 55, 56, 0, 21, 208, 132, 173, 1, 24, 4, 115, 49, 56, 48, 0, 28, 87, 0, 0, 0, 0, 0, 128, 63, 64, 0, 25, 39, 0, 0, 0, 0, 0, 160, 87, 64, 0, 0, 0, 0, 0, 224, 87, 64, 25, 37, 14, 254, 255, 255, 255, 15, 18, 0, 0, 25, 44, 28, 0, 28, 9, 44, 34, 1, 2, 0, 28, 18, 19, 83, 20, 176, 100, 21, 242, 170, 48, 22, 204, 205, 209, 48, 23, 0, 0, 0, 0, 0, 64, 74, 64, 24, 3, 115, 53, 51, 24, 3, 255, 54, 128, 21, 0, 28, 21, 148, 158, 109, 24, 4, 115, 49, 49, 52, 0, 25, 37, 190, 162, 166, 1, 156, 158, 167, 1, 25, 34, 2, 1, 25, 40, 4, 115, 49, 55, 56, 4, 115, 49, 55, 57, 25, 40, 3, 255, 181, 128, 3, 255, 182, 128, 25, 44, 21, 148, 218, 228, 2, 24, 4, 115, 51, 55, 48, 0, 21, 208, 209, 230, 2, 24, 4, 115, 51, 55, 50, 0, 28, 5, 46, 254, 255, 255, 255, 15, 0, 25, 39, 0, 0, 0, 0, 0, 208, 103, 64, 0, 0, 0, 0, 0, 240, 103, 64, 25, 37, 254, 255, 255, 255, 15, 9, 18, 0, 0, 28, 0, 28, 3, 48, 50, 0, 28, 18, 19, 111, 20, 200, 108, 21, 234, 153, 52, 22, 228, 241, 185, 52, 23, 0, 0, 0, 0, 0, 64, 76, 64, 24, 3, 115, 53, 55, 24, 3, 255, 58, 128, 21, 9, 28, 21, 132, 252, 116, 24, 4, 115, 49, 50, 50, 0, 25, 37, 166, 239, 177, 1, 132, 235, 178, 1, 25, 34, 2, 1, 25, 40, 4, 115, 49, 57, 48, 4, 115, 49, 57, 49, 25, 40, 3, 255, 193, 128, 3, 255, 194, 128, 25, 44, 21, 228, 243, 251, 2, 24, 4, 115, 51, 57, 52, 0, 21, 160, 235, 253, 2, 24, 4, 115, 51, 57, 54, 0, 28, 40, 3, 115, 54, 55, 0, 25, 39, 0, 0, 0, 0, 0, 80, 105, 64, 0, 0, 0, 0, 0, 112, 105, 64, 25, 37, 0, 2, 18, 0, 0, 17, 0], &[28, 21, 168, 226, 6, 24, 2, 115, 56, 0, 28, 28, 0, 28, 5, 46, 2, 0, 28, 18, 19, 43, 20, 160, 51, 21, 162, 145, 25, 22, 188, 244, 223, 25, 23, 0, 0, 0, 0, 0, 128, 60, 64, 24, 3, 115, 50, 57, 24, 3, 255, 30, 128, 21, 2, 28, 21, 244, 234, 62, 24, 3, 115, 54, 54, 0, 25, 37, 206, 213, 96, 172, 209, 97, 25, 34, 2, 1, 25, 40, 4, 115, 49, 48, 54, 4, 115, 49, 48, 55, 25, 40, 3, 255, 109, 128, 3, 255, 110, 128, 25, 44, 21, 180, 192, 217, 1, 24, 4, 115, 50, 50, 54, 0, 21, 240, 183, 219, 1, 24, 4, 115, 50, 50, 56, 0, 28, 4, 50, 244, 79, 0, 25, 39, 0, 0, 0, 0, 0, 160, 93, 64, 0, 0, 0, 0, 0, 224, 93, 64, 25, 37, 2, 14, 18, 0, 0, 25, 44, 28, 0, 28, 6, 216, 4, 236, 188, 176, 33, 0, 28, 18, 19, 123, 20, 192, 149, 1, 21, 194, 196, 71, 22, 220, 166, 195, 71, 23, 0, 0, 0, 0, 0, 32, 83, 64, 24, 3, 115, 55, 55, 24, 3, 255, 78, 128, 21, 9, 28, 21, 180, 209, 155, 1, 24, 4, 115, 49, 54, 50, 0, 25, 37, 174, 239, 235, 1, 140, 235, 236, 1, 25, 34, 2, 1, 25, 40, 4, 115, 50, 53, 48, 4, 115, 50, 53, 49, 25, 40, 3, 255, 253, 128, 3, 255, 254, 128, 25, 44, 21, 244, 243, 239, 3, 24, 4, 115, 53, 49, 52, 0, 21, 176, 235, 241, 3, 24, 4, 115, 53, 49, 54, 0, 28, 6, 216, 4, 164, 147, 252, 82, 0, 25, 39, 0, 0, 0, 0, 0, 104, 112, 64, 0, 0, 0, 0, 0, 120, 112, 64, 25, 37, 0, 2, 18, 0, 0, 28, 0, 28, 5, 46, 14, 0, 28, 18, 19, 23, 20, 216, 157, 1, 21, 186, 179, 75, 22, 244, 202, 171, 75, 23, 0, 0, 0, 0, 0, 32, 84, 64, 24, 3, 115, 56, 49, 24, 3, 255, 82, 128, 21, 254, 255, 255, 255, 15, 28, 21, 164, 175, 163, 1, 24, 4, 115, 49, 55, 48, 0, 25, 37, 150, 188, 247, 1, 244, 183, 248, 1, 25, 34, 2, 1, 25, 40, 4, 115, 50, 54, 50, 4, 115, 50, 54, 51, 25, 40, 3, 255, 9, 128, 3, 255, 10, 128, 25, 44, 21, 196, 141, 135, 4, 24, 4, 115, 53, 51, 56, 0, 21, 128, 133, 137, 4, 24, 4, 115, 53, 52, 48, 0, 28, 4, 50, 172, 186, 1, 0, 25, 39, 0, 0, 0, 0, 0, 40, 113, 64, 0, 0, 0, 0, 0, 56, 113, 64, 25, 37, 14, 254, 255, 255, 255, 15, 18, 0, 0, 17, 0], &[28, 21, 0, 0, 41, 12, 0]]),
    ("Nested2", &[&[28, 0, 28, 50, 0, 28, 18, 19, 59, 20, 192, 18, 21, 194, 213, 9, 22, 220, 227, 190, 10, 23, 0, 0, 0, 0, 0, 0, 41, 64, 24, 3, 115, 49, 51, 24, 3, 255, 14, 128, 21, 0, 28, 21, 180, 243, 31, 24, 3, 115, 51, 52, 0, 25, 37, 174, 162, 50, 140, 158, 51, 25, 34, 2, 1, 25, 40, 3, 115, 53, 56, 3, 115, 53, 57, 25, 40, 3, 255, 61, 128, 3, 255, 62, 128, 25, 44, 21, 244, 217, 124, 24, 4, 115, 49, 51, 48, 0, 21, 176, 209, 126, 24, 4, 115, 49, 51, 50, 0, 28, 9, 44, 34, 1, 2, 0, 25, 39, 0, 0, 0, 0, 0, 160, 81, 64, 0, 0, 0, 0, 0, 224, 81, 64, 25, 37, 254, 255, 255, 255, 15, 9, 18, 0, 0], &[28, 0, 28, 87, 0, 0, 0, 0, 0, 0, 22, 64, 0, 28, 18, 19, 87, 20, 216, 26, 21, 186, 196, 13, 22, 244, 135, 167, 14, 23, 0, 0, 0, 0, 0, 128, 48, 64, 24, 3, 115, 49, 55, 24, 3, 255, 18, 128, 21, 9, 28, 21, 164, 209, 39, 24, 3, 115, 52, 50, 0, 25, 37, 150, 239, 61, 244, 234, 62, 25, 34, 2, 1, 25, 40, 3, 115, 55, 48, 3, 115, 55, 49, 25, 40, 3, 255, 73, 128, 3, 255, 74, 128, 25, 44, 21, 196, 243, 147, 1, 24, 4, 115, 49, 53, 52, 0, 21, 128, 235, 149, 1, 24, 4, 115, 49, 53, 54, 0, 28, 21, 128, 141, 26, 0, 25, 39, 0, 0, 0, 0, 0, 160, 84, 64, 0, 0, 0, 0, 0, 224, 84, 64, 25, 37, 0, 2, 18, 0, 0], &[44, 21, 0, 0, 0]]),
    ("Mixed", &[&[21, 244, 123, 21, 210, 247, 1, 18, 24, 2, 115, 52, 0], &[21, 176, 243, 2, 21, 142, 239, 3, 18, 24, 2, 115, 54, 0], &[21, 0, 34, 0]]),
    ("ReqThree", &[&[124, 21, 176, 243, 2, 24, 2, 115, 52, 0, 9, 6, 37, 168, 226, 6, 134, 222, 7, 34, 0], &[124, 21, 168, 226, 6, 24, 2, 115, 56, 0, 9, 6, 37, 220, 200, 12, 186, 196, 13, 34, 0], &[124, 21, 0, 0, 9, 6, 5, 34, 0]]),
    ("Names", &[&[21, 244, 123, 21, 210, 247, 1, 18, 21, 142, 239, 3, 21, 236, 234, 4, 21, 202, 230, 5, 24, 2, 115, 55, 0], &[21, 176, 243, 2, 21, 142, 239, 3, 18, 21, 202, 230, 5, 21, 168, 226, 6, 21, 134, 222, 7, 24, 2, 115, 57, 0], &[21, 0, 34, 21, 0, 37, 0, 0]]),
    ("HugeElement", &[&[22, 160, 137, 122, 22, 166, 146, 244, 1, 22, 172, 155, 238, 2, 22, 178, 164, 232, 3, 24, 2, 115, 53, 24, 2, 115, 54, 24, 2, 115, 55, 24, 2, 115, 56, 0], &[22, 172, 155, 238, 2, 22, 178, 164, 232, 3, 22, 184, 173, 226, 4, 22, 190, 182, 220, 5, 24, 2, 115, 55, 24, 2, 115, 56, 24, 2, 115, 57, 24, 3, 115, 49, 48, 0], &[22, 0, 22, 0, 22, 0, 22, 0, 24, 0, 24, 0, 24, 0, 24, 0, 0]]),
    ("Lay0x", &[&[18, 21, 210, 247, 1, 18, 0], &[18, 21, 142, 239, 3, 18, 0], &[18, 34, 0]]),
    ("Lay0y", &[&[25, 34, 1, 2, 22, 166, 146, 244, 1, 28, 21, 168, 226, 6, 24, 2, 115, 56, 0, 0], &[25, 34, 1, 2, 22, 178, 164, 232, 3, 28, 21, 160, 209, 10, 24, 3, 115, 49, 50, 0, 0], &[38, 0, 0]]),
    ("Lay1x", &[&[28, 21, 176, 243, 2, 24, 2, 115, 52, 0, 241, 25, 37, 194, 213, 9, 160, 209, 10, 0], &[28, 21, 168, 226, 6, 24, 2, 115, 56, 0, 241, 25, 37, 246, 187, 15, 212, 183, 16, 0], &[28, 21, 0, 0, 9, 34, 5, 0]]),
    ("Lay1y", &[&[21, 2, 252, 50, 0, 24, 3, 255, 3, 128, 0], &[21, 254, 255, 255, 255, 15, 252, 87, 0, 0, 0, 0, 0, 0, 22, 64, 0, 24, 3, 255, 5, 128, 0], &[21, 0, 252, 21, 0, 0, 0]]),
    ("Lay2x", &[&[18, 1, 34, 7, 66, 0, 0, 0, 0, 0, 0, 12, 64, 0], &[18, 1, 34, 7, 66, 0, 0, 0, 0, 0, 0, 22, 64, 0], &[18, 7, 66, 0, 0, 0, 0, 0, 0, 0, 0, 0]]),
    ("Lay2y", &[&[18, 5, 34, 210, 247, 1, 2, 66, 0], &[18, 5, 34, 142, 239, 3, 2, 66, 0], &[18, 2, 66, 0]]),
    ("Lay3x", &[&[243, 10, 20, 150, 4, 232, 2, 115, 51, 0], &[243, 24, 20, 162, 8, 232, 2, 115, 53, 0], &[0]]),
    ("Lay3y", &[&[252, 21, 176, 243, 2, 24, 2, 115, 52, 0, 17, 233, 37, 194, 213, 9, 160, 209, 10, 0], &[252, 21, 168, 226, 6, 24, 2, 115, 56, 0, 17, 233, 37, 246, 187, 15, 212, 183, 16, 0], &[252, 21, 0, 0, 249, 5, 0]]),
    ("Lay4x", &[&[2, 32, 8, 64, 2, 115, 50, 2, 96, 0], &[2, 32, 8, 64, 2, 115, 52, 2, 96, 0], &[8, 64, 0, 0]]),
    ("Lay4y", &[&[2, 32, 1, 64, 7, 96, 0, 0, 0, 0, 0, 0, 12, 64, 0], &[2, 32, 1, 64, 7, 96, 0, 0, 0, 0, 0, 0, 22, 64, 0], &[2, 32, 7, 96, 0, 0, 0, 0, 0, 0, 0, 0, 0]]),
    ("Lay5x", &[&[233, 34, 1, 2, 246, 166, 146, 244, 1, 12, 90, 21, 168, 226, 6, 24, 2, 115, 56, 0, 0], &[233, 34, 1, 2, 246, 178, 164, 232, 3, 12, 90, 21, 160, 209, 10, 24, 3, 115, 49, 50, 0, 0], &[6, 58, 0, 0]]),
    ("Lay5y", &[&[227, 10, 244, 150, 4, 8, 90, 2, 115, 51, 0], &[227, 24, 244, 162, 8, 8, 90, 2, 115, 53, 0], &[0]]),
    ("Lay6x", &[&[53, 2, 12, 4, 50, 0, 8, 2, 3, 255, 3, 128, 0], &[53, 254, 255, 255, 255, 15, 12, 4, 87, 0, 0, 0, 0, 0, 0, 22, 64, 0, 8, 2, 3, 255, 5, 128, 0], &[53, 0, 12, 4, 21, 0, 0, 0]]),
    ("Lay6y", &[&[50, 8, 4, 2, 115, 50, 2, 2, 0], &[50, 8, 4, 2, 115, 52, 2, 2, 0], &[40, 0, 0]]),
    ("Lay7x", &[&[2, 34, 5, 2, 210, 247, 1, 18, 0], &[2, 34, 5, 2, 142, 239, 3, 18, 0], &[2, 34, 2, 4, 0]]),
    ("Lay7y", &[&[9, 34, 34, 1, 2, 6, 2, 166, 146, 244, 1, 28, 21, 168, 226, 6, 24, 2, 115, 56, 0, 0], &[9, 34, 34, 1, 2, 6, 2, 178, 164, 232, 3, 28, 21, 160, 209, 10, 24, 3, 115, 49, 50, 0, 0], &[22, 0, 0]]),
    ("Lay8x", &[&[12, 200, 1, 21, 176, 243, 2, 24, 2, 115, 52, 0, 1, 2, 9, 100, 37, 194, 213, 9, 160, 209, 10, 0], &[12, 200, 1, 21, 168, 226, 6, 24, 2, 115, 56, 0, 1, 2, 9, 100, 37, 246, 187, 15, 212, 183, 16, 0], &[12, 200, 1, 21, 0, 0, 9, 100, 5, 0]]),
    ("Lay8y", &[&[5, 200, 1, 2, 12, 2, 50, 0, 8, 100, 3, 255, 3, 128, 0], &[5, 200, 1, 254, 255, 255, 255, 15, 12, 2, 87, 0, 0, 0, 0, 0, 0, 22, 64, 0, 8, 100, 3, 255, 5, 128, 0], &[5, 200, 1, 0, 12, 2, 21, 0, 0, 0]]),
    ("Lay9x", &[&[2, 0, 17, 23, 0, 0, 0, 0, 0, 0, 12, 64, 0], &[2, 0, 17, 23, 0, 0, 0, 0, 0, 0, 22, 64, 0], &[2, 0, 39, 0, 0, 0, 0, 0, 0, 0, 0, 0]]),
    ("Lay9y", &[&[2, 0, 21, 210, 247, 1, 18, 0], &[2, 0, 21, 142, 239, 3, 18, 0], &[2, 0, 34, 0]]),
    ("Lay10x", &[&[19, 10, 4, 0, 150, 4, 40, 2, 115, 51, 0], &[19, 24, 4, 0, 162, 8, 40, 2, 115, 53, 0], &[0]]),
    ("Lay10y", &[&[28, 21, 176, 243, 2, 24, 2, 115, 52, 0, 1, 0, 41, 37, 194, 213, 9, 160, 209, 10, 0], &[28, 21, 168, 226, 6, 24, 2, 115, 56, 0, 1, 0, 41, 37, 246, 187, 15, 212, 183, 16, 0], &[28, 21, 0, 0, 25, 5, 0]]),
    ("Lay11x", &[&[2, 1, 24, 2, 115, 50, 18, 0], &[2, 1, 24, 2, 115, 52, 18, 0], &[8, 0, 0, 0]]),
    ("Lay11y", &[&[2, 1, 17, 23, 0, 0, 0, 0, 0, 0, 12, 64, 0], &[2, 1, 17, 23, 0, 0, 0, 0, 0, 0, 22, 64, 0], &[2, 1, 39, 0, 0, 0, 0, 0, 0, 0, 0, 0]]),
    ("Lay12x", &[&[9, 1, 34, 1, 2, 6, 3, 166, 146, 244, 1, 12, 5, 21, 168, 226, 6, 24, 2, 115, 56, 0, 0], &[9, 1, 34, 1, 2, 6, 3, 178, 164, 232, 3, 12, 5, 21, 160, 209, 10, 24, 3, 115, 49, 50, 0, 0], &[6, 3, 0, 0]]),
    ("Lay12y", &[&[3, 1, 10, 4, 3, 150, 4, 8, 5, 2, 115, 51, 0], &[3, 1, 24, 4, 3, 162, 8, 8, 5, 2, 115, 53, 0], &[0]]),
    ("Lay13x", &[&[5, 31, 2, 252, 50, 0, 248, 3, 255, 3, 128, 0], &[5, 31, 254, 255, 255, 255, 15, 252, 87, 0, 0, 0, 0, 0, 0, 22, 64, 0, 248, 3, 255, 5, 128, 0], &[5, 31, 0, 252, 21, 0, 0, 0]]),
    ("Lay13y", &[&[2, 31, 248, 2, 115, 50, 242, 0], &[2, 31, 248, 2, 115, 52, 242, 0], &[8, 1, 0, 0]]),
    ("Lay14x", &[&[2, 255, 255, 3, 5, 254, 255, 3, 210, 247, 1, 2, 0, 0], &[2, 255, 255, 3, 5, 254, 255, 3, 142, 239, 3, 2, 0, 0], &[2, 255, 255, 3, 2, 0, 0]]),
    ("Lay14y", &[&[9, 255, 255, 3, 34, 1, 2, 6, 254, 255, 3, 166, 146, 244, 1, 12, 0, 21, 168, 226, 6, 24, 2, 115, 56, 0, 0], &[9, 255, 255, 3, 34, 1, 2, 6, 254, 255, 3, 178, 164, 232, 3, 12, 0, 21, 160, 209, 10, 24, 3, 115, 49, 50, 0, 0], &[6, 254, 255, 3, 0, 0]]),
    ("Lay15x", &[&[12, 254, 255, 3, 21, 176, 243, 2, 24, 2, 115, 52, 0, 1, 255, 255, 3, 9, 2, 37, 194, 213, 9, 160, 209, 10, 0], &[12, 254, 255, 3, 21, 168, 226, 6, 24, 2, 115, 56, 0, 1, 255, 255, 3, 9, 2, 37, 246, 187, 15, 212, 183, 16, 0], &[12, 254, 255, 3, 21, 0, 0, 9, 2, 5, 0]]),
    ("Lay15y", &[&[5, 254, 255, 3, 2, 12, 255, 255, 3, 50, 0, 8, 2, 3, 255, 3, 128, 0], &[5, 254, 255, 3, 254, 255, 255, 255, 15, 12, 255, 255, 3, 87, 0, 0, 0, 0, 0, 0, 22, 64, 0, 8, 2, 3, 255, 5, 128, 0], &[5, 254, 255, 3, 0, 12, 255, 255, 3, 21, 0, 0, 0]]),
    ("Lay16x", &[&[2, 224, 255, 3, 241, 7, 2, 0, 0, 0, 0, 0, 0, 12, 64, 0], &[2, 224, 255, 3, 241, 7, 2, 0, 0, 0, 0, 0, 0, 22, 64, 0], &[2, 224, 255, 3, 7, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0]]),
    ("Lay16y", &[&[2, 224, 255, 3, 245, 210, 247, 1, 2, 2, 0], &[2, 224, 255, 3, 245, 142, 239, 3, 2, 2, 0], &[2, 224, 255, 3, 2, 2, 0]]),
    ("Lay17x", &[&[3, 222, 255, 3, 10, 4, 254, 255, 3, 150, 4, 8, 10, 2, 115, 51, 0], &[3, 222, 255, 3, 24, 4, 254, 255, 3, 162, 8, 8, 10, 2, 115, 53, 0], &[0]]),
    ("Lay17y", &[&[12, 222, 255, 3, 21, 176, 243, 2, 24, 2, 115, 52, 0, 1, 254, 255, 3, 9, 10, 37, 194, 213, 9, 160, 209, 10, 0], &[12, 222, 255, 3, 21, 168, 226, 6, 24, 2, 115, 56, 0, 1, 254, 255, 3, 9, 10, 37, 246, 187, 15, 212, 183, 16, 0], &[12, 222, 255, 3, 21, 0, 0, 9, 10, 5, 0]]),
    ("Lay18x", &[&[18, 8, 128, 2, 2, 115, 50, 18, 0], &[18, 8, 128, 2, 2, 115, 52, 18, 0], &[8, 128, 2, 0, 0]]),
    ("Lay18y", &[&[18, 1, 128, 2, 23, 0, 0, 0, 0, 0, 0, 12, 64, 0], &[18, 1, 128, 2, 23, 0, 0, 0, 0, 0, 0, 22, 64, 0], &[18, 7, 130, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0]]),
    ("Lay19x", &[&[9, 144, 3, 34, 1, 2, 246, 166, 146, 244, 1, 12, 206, 3, 21, 168, 226, 6, 24, 2, 115, 56, 0, 0], &[9, 144, 3, 34, 1, 2, 246, 178, 164, 232, 3, 12, 206, 3, 21, 160, 209, 10, 24, 3, 115, 49, 50, 0, 0], &[6, 174, 3, 0, 0]]),
    ("Lay19y", &[&[3, 144, 3, 10, 244, 150, 4, 8, 206, 3, 2, 115, 51, 0], &[3, 144, 3, 24, 244, 162, 8, 8, 206, 3, 2, 115, 53, 0], &[0]]),
    ("Lay20x", &[&[5, 254, 127, 2, 28, 50, 0, 24, 3, 255, 3, 128, 0], &[5, 254, 127, 254, 255, 255, 255, 15, 28, 87, 0, 0, 0, 0, 0, 0, 22, 64, 0, 24, 3, 255, 5, 128, 0], &[5, 254, 127, 0, 28, 21, 0, 0, 0]]),
    ("Lay20y", &[&[2, 254, 127, 24, 2, 115, 50, 18, 0], &[2, 254, 127, 24, 2, 115, 52, 18, 0], &[8, 128, 128, 1, 0, 0]]),
    ("Lay21x", &[&[2, 127, 5, 129, 1, 210, 247, 1, 34, 0], &[2, 127, 5, 129, 1, 142, 239, 3, 34, 0], &[2, 127, 18, 0]]),
    ("Lay21y", &[&[9, 127, 34, 1, 2, 6, 129, 1, 166, 146, 244, 1, 44, 21, 168, 226, 6, 24, 2, 115, 56, 0, 0], &[9, 127, 34, 1, 2, 6, 129, 1, 178, 164, 232, 3, 44, 21, 160, 209, 10, 24, 3, 115, 49, 50, 0, 0], &[6, 129, 1, 0, 0]]),
    ("Lay22x", &[&[12, 126, 21, 176, 243, 2, 24, 2, 115, 52, 0, 17, 25, 37, 194, 213, 9, 160, 209, 10, 0], &[12, 126, 21, 168, 226, 6, 24, 2, 115, 56, 0, 17, 25, 37, 246, 187, 15, 212, 183, 16, 0], &[12, 126, 21, 0, 0, 41, 5, 0]]),
    ("Lay22y", &[&[5, 126, 2, 28, 50, 0, 24, 3, 255, 3, 128, 0], &[5, 126, 254, 255, 255, 255, 15, 28, 87, 0, 0, 0, 0, 0, 0, 22, 64, 0, 24, 3, 255, 5, 128, 0], &[5, 126, 0, 28, 21, 0, 0, 0]]),
    ("Lay23x", &[&[18, 225, 7, 62, 0, 0, 0, 0, 0, 0, 12, 64, 0], &[18, 225, 7, 62, 0, 0, 0, 0, 0, 0, 22, 64, 0], &[18, 7, 62, 0, 0, 0, 0, 0, 0, 0, 0, 0]]),
    ("Lay23y", &[&[18, 229, 210, 247, 1, 2, 62, 0], &[18, 229, 142, 239, 3, 2, 62, 0], &[18, 2, 62, 0]]),
    ("Lay24x", &[&[3, 9, 10, 244, 150, 4, 8, 52, 2, 115, 51, 0], &[3, 9, 24, 244, 162, 8, 8, 52, 2, 115, 53, 0], &[0]]),
    ("Lay24y", &[&[12, 9, 21, 176, 243, 2, 24, 2, 115, 52, 0, 241, 9, 52, 37, 194, 213, 9, 160, 209, 10, 0], &[12, 9, 21, 168, 226, 6, 24, 2, 115, 56, 0, 241, 9, 52, 37, 246, 187, 15, 212, 183, 16, 0], &[12, 9, 21, 0, 0, 9, 52, 5, 0]]),
    ("Lay25x", &[&[82, 8, 144, 78, 2, 115, 50, 226, 0], &[82, 8, 144, 78, 2, 115, 52, 226, 0], &[8, 144, 78, 0, 0]]),
    ("Lay25y", &[&[82, 1, 144, 78, 231, 0, 0, 0, 0, 0, 0, 12, 64, 0], &[82, 1, 144, 78, 231, 0, 0, 0, 0, 0, 0, 22, 64, 0], &[82, 7, 172, 78, 0, 0, 0, 0, 0, 0, 0, 0, 0]]),
    ("Lay26x", &[&[9, 255, 255, 3, 34, 1, 2, 246, 166, 146, 244, 1, 12, 193, 255, 3, 21, 168, 226, 6, 24, 2, 115, 56, 0, 0], &[9, 255, 255, 3, 34, 1, 2, 246, 178, 164, 232, 3, 12, 193, 255, 3, 21, 160, 209, 10, 24, 3, 115, 49, 50, 0, 0], &[6, 225, 255, 3, 0, 0]]),
    ("Lay26y", &[&[3, 255, 255, 3, 10, 244, 150, 4, 8, 193, 255, 3, 2, 115, 51, 0], &[3, 255, 255, 3, 24, 244, 162, 8, 8, 193, 255, 3, 2, 115, 53, 0], &[0]]),
    ("Lay27x", &[&[5, 128, 4, 2, 12, 128, 8, 50, 0, 8, 2, 3, 255, 3, 128, 0], &[5, 128, 4, 254, 255, 255, 255, 15, 12, 128, 8, 87, 0, 0, 0, 0, 0, 0, 22, 64, 0, 8, 2, 3, 255, 5, 128, 0], &[5, 128, 4, 0, 12, 128, 8, 21, 0, 0, 0]]),
    ("Lay27y", &[&[2, 128, 4, 8, 128, 8, 2, 115, 50, 2, 2, 0], &[2, 128, 4, 8, 128, 8, 2, 115, 52, 2, 2, 0], &[8, 128, 8, 0, 0]]),
    ("Lay28x", &[&[18, 5, 1, 210, 247, 1, 50, 0], &[18, 5, 1, 142, 239, 3, 50, 0], &[18, 18, 0]]),
    ("Lay28y", &[&[25, 34, 1, 2, 6, 1, 166, 146, 244, 1, 60, 21, 168, 226, 6, 24, 2, 115, 56, 0, 0], &[25, 34, 1, 2, 6, 1, 178, 164, 232, 3, 60, 21, 160, 209, 10, 24, 3, 115, 49, 50, 0, 0], &[6, 1, 0, 0]]),
    ("Lay29x", &[&[44, 21, 176, 243, 2, 24, 2, 115, 52, 0, 1, 2, 41, 37, 194, 213, 9, 160, 209, 10, 0], &[44, 21, 168, 226, 6, 24, 2, 115, 56, 0, 1, 2, 41, 37, 246, 187, 15, 212, 183, 16, 0], &[44, 21, 0, 0, 25, 5, 0]]),
    ("Lay29y", &[&[37, 2, 12, 2, 50, 0, 40, 3, 255, 3, 128, 0], &[37, 254, 255, 255, 255, 15, 12, 2, 87, 0, 0, 0, 0, 0, 0, 22, 64, 0, 40, 3, 255, 5, 128, 0], &[37, 0, 12, 2, 21, 0, 0, 0]]),
    ("Uni0", &[&[18, 0], &[37, 210, 247, 1, 0]]),
    ("Uni3", &[&[242, 0], &[5, 32, 210, 247, 1, 0]]),
    ("Uni6", &[&[50, 0], &[37, 210, 247, 1, 0]]),
    ("Uni9", &[&[2, 0, 0], &[21, 210, 247, 1, 0]]),
    ("Uni12", &[&[2, 1, 0], &[5, 3, 210, 247, 1, 0]]),
    ("Uni15", &[&[2, 254, 255, 3, 0], &[5, 255, 255, 3, 210, 247, 1, 0]]),
    ("Uni18", &[&[18, 0], &[5, 128, 2, 210, 247, 1, 0]]),
    ("Uni21", &[&[2, 127, 0], &[5, 129, 1, 210, 247, 1, 0]]),
    ("Uni24", &[&[2, 9, 0], &[165, 210, 247, 1, 0]]),
    ("Uni27", &[&[2, 128, 4, 0], &[5, 128, 8, 210, 247, 1, 0]]),
    ("Sets", &[&[26, 21, 210, 247, 1, 26, 24, 2, 115, 51, 18, 0], &[26, 21, 142, 239, 3, 26, 24, 2, 115, 53, 18, 0], &[26, 5, 0]]),
];
pub const PARQUET: &[(&str, &[&[u8]])] = &[
    ("Type", &[&[0], &[2]]),
    ("ConvertedType", &[&[0], &[2]]),
    ("FieldRepetitionType", &[&[0], &[2]]),
    ("SizeStatistics", &[&[22, 160, 137, 122, 25, 38, 196, 191, 214, 6, 202, 200, 208, 7, 25, 38, 214, 218, 196, 9, 220, 227, 190, 10, 0], &[22, 172, 155, 238, 2, 25, 38, 232, 245, 178, 12, 238, 254, 172, 13, 25, 38, 250, 144, 161, 15, 128, 154, 155, 16, 0], &[0]]),
    ("BoundingBox", &[&[23, 0, 0, 0, 0, 0, 0, 248, 63, 23, 0, 0, 0, 0, 0, 0, 4, 64, 23, 0, 0, 0, 0, 0, 0, 12, 64, 23, 0, 0, 0, 0, 0, 0, 18, 64, 23, 0, 0, 0, 0, 0, 0, 22, 64, 23, 0, 0, 0, 0, 0, 0, 26, 64, 23, 0, 0, 0, 0, 0, 0, 30, 64, 23, 0, 0, 0, 0, 0, 0, 33, 64, 0], &[23, 0, 0, 0, 0, 0, 0, 12, 64, 23, 0, 0, 0, 0, 0, 0, 18, 64, 23, 0, 0, 0, 0, 0, 0, 22, 64, 23, 0, 0, 0, 0, 0, 0, 26, 64, 23, 0, 0, 0, 0, 0, 0, 30, 64, 23, 0, 0, 0, 0, 0, 0, 33, 64, 23, 0, 0, 0, 0, 0, 0, 35, 64, 23, 0, 0, 0, 0, 0, 0, 37, 64, 0], &[23, 0, 0, 0, 0, 0, 0, 0, 0, 23, 0, 0, 0, 0, 0, 0, 0, 0, 23, 0, 0, 0, 0, 0, 0, 0, 0, 23, 0, 0, 0, 0, 0, 0, 0, 0, 0]]),
    ("GeospatialStatistics", &[&[28, 23, 0, 0, 0, 0, 0, 0, 12, 64, 23, 0, 0, 0, 0, 0, 0, 18, 64, 23, 0, 0, 0, 0, 0, 0, 22, 64, 23, 0, 0, 0, 0, 0, 0, 26, 64, 23, 0, 0, 0, 0, 0, 0, 30, 64, 23, 0, 0, 0, 0, 0, 0, 33, 64, 23, 0, 0, 0, 0, 0, 0, 35, 64, 23, 0, 0, 0, 0, 0, 0, 37, 64, 0, 25, 37, 168, 226, 6, 134, 222, 7, 0], &[28, 23, 0, 0, 0, 0, 0, 0, 30, 64, 23, 0, 0, 0, 0, 0, 0, 33, 64, 23, 0, 0, 0, 0, 0, 0, 35, 64, 23, 0, 0, 0, 0, 0, 0, 37, 64, 23, 0, 0, 0, 0, 0, 0, 39, 64, 23, 0, 0, 0, 0, 0, 0, 41, 64, 23, 0, 0, 0, 0, 0, 0, 43, 64, 23, 0, 0, 0, 0, 0, 0, 45, 64, 0, 25, 37, 220, 200, 12, 186, 196, 13, 0], &[0]]),
    ("Statistics", &[&[24, 3, 255, 1, 128, 24, 3, 255, 2, 128, 22, 172, 155, 238, 2, 22, 178, 164, 232, 3, 24, 3, 255, 5, 128, 24, 3, 255, 6, 128, 18, 17, 0], &[24, 3, 255, 3, 128, 24, 3, 255, 4, 128, 22, 184, 173, 226, 4, 22, 190, 182, 220, 5, 24, 3, 255, 7, 128, 24, 3, 255, 8, 128, 18, 17, 0], &[0]]),
    ("StringType", &[&[0]]),
    ("UUIDType", &[&[0]]),
    ("MapType", &[&[0]]),
    ("ListType", &[&[0]]),
    ("EnumType", &[&[0]]),
    ("DateType", &[&[0]]),
    ("Float16Type", &[&[0]]),
    ("NullType", &[&[0]]),
    ("DecimalType", &[&[21, 244, 123, 21, 210, 247, 1, 0], &[21, 176, 243, 2, 21, 142, 239, 3, 0], &[21, 0, 21, 0, 0]]),
    ("MilliSeconds", &[&[0]]),
    ("MicroSeconds", &[&[0]]),
    ("NanoSeconds", &[&[0]]),
    ("TimeUnit", &[&[28, 0, 0], &[44, 0, 0]]),
    ("TimestampType", &[&[18, 28, 60, 0, 0, 0], &[18, 28, 44, 0, 0, 0], &[18, 28, 28, 0, 0, 0]]),
    ("TimeType", &[&[18, 28, 60, 0, 0, 0], &[18, 28, 44, 0, 0, 0], &[18, 28, 28, 0, 0, 0]]),
    ("IntType", &[&[19, 10, 17, 0], &[19, 24, 17, 0], &[19, 0, 18, 0]]),
    ("JsonType", &[&[0]]),
    ("BsonType", &[&[0]]),
    ("VariantType", &[&[19, 10, 0], &[19, 24, 0], &[0]]),
    ("EdgeInterpolationAlgorithm", &[&[0], &[2]]),
    ("GeometryType", &[&[24, 2, 115, 49, 0], &[24, 2, 115, 51, 0], &[0]]),
    ("GeographyType", &[&[24, 2, 115, 49, 21, 4, 0], &[24, 2, 115, 51, 21, 8, 0], &[0]]),
    ("LogicalType", &[&[28, 0, 0], &[44, 0, 0]]),
    ("SchemaElement", &[&[21, 2, 21, 210, 247, 1, 21, 0, 24, 2, 115, 52, 21, 236, 234, 4, 21, 12, 21, 168, 226, 6, 21, 134, 222, 7, 21, 228, 217, 8, 28, 204, 0, 0, 0], &[21, 6, 21, 142, 239, 3, 21, 4, 24, 2, 115, 54, 21, 168, 226, 6, 21, 16, 21, 228, 217, 8, 21, 194, 213, 9, 21, 160, 209, 10, 28, 236, 0, 0, 0], &[72, 0, 0]]),
    ("Encoding", &[&[0], &[4]]),
    ("CompressionCodec", &[&[0], &[2]]),
    ("PageType", &[&[0], &[2]]),
    ("BoundaryOrder", &[&[0], &[2]]),
    ("DataPageHeader", &[&[21, 244, 123, 21, 6, 21, 8, 21, 10, 28, 24, 3, 255, 11, 128, 24, 3, 255, 12, 128, 22, 232, 245, 178, 12, 22, 238, 254, 172, 13, 24, 3, 255, 15, 128, 24, 3, 255, 16, 128, 18, 17, 0, 0], &[21, 176, 243, 2, 21, 10, 21, 12, 21, 14, 28, 24, 3, 255, 15, 128, 24, 3, 255, 16, 128, 22, 128, 154, 155, 16, 22, 134, 163, 149, 17, 24, 3, 255, 19, 128, 24, 3, 255, 20, 128, 18, 17, 0, 0], &[21, 0, 21, 0, 21, 0, 21, 0, 0]]),
    ("IndexPageHeader", &[&[0]]),
    ("DictionaryPageHeader", &[&[21, 244, 123, 21, 6, 18, 0], &[21, 176, 243, 2, 21, 10, 18, 0], &[21, 0, 21, 0, 0]]),
    ("DataPageHeaderV2", &[&[21, 244, 123, 21, 210, 247, 1, 21, 176, 243, 2, 21, 10, 21, 236, 234, 4, 21, 202, 230, 5, 18, 28, 24, 3, 255, 17, 128, 24, 3, 255, 18, 128, 22, 140, 172, 143, 18, 22, 146, 181, 137, 19, 24, 3, 255, 21, 128, 24, 3, 255, 22, 128, 18, 17, 0, 0], &[21, 176, 243, 2, 21, 142, 239, 3, 21, 236, 234, 4, 21, 14, 21, 168, 226, 6, 21, 134, 222, 7, 18, 28, 24, 3, 255, 21, 128, 24, 3, 255, 22, 128, 22, 164, 208, 247, 21, 22, 170, 217, 241, 22, 24, 3, 255, 25, 128, 24, 3, 255, 26, 128, 18, 17, 0, 0], &[21, 0, 21, 0, 21, 0, 21, 0, 21, 0, 21, 0, 0]]),
    ("SplitBlockAlgorithm", &[&[0]]),
    ("BloomFilterAlgorithm", &[&[28, 0, 0]]),
    ("XxHash", &[&[0]]),
    ("BloomFilterHash", &[&[28, 0, 0]]),
    ("Uncompressed", &[&[0]]),
    ("BloomFilterCompression", &[&[28, 0, 0]]),
    ("BloomFilterHeader", &[&[21, 244, 123, 28, 28, 0, 0, 28, 28, 0, 0, 28, 28, 0, 0, 0], &[21, 176, 243, 2, 28, 28, 0, 0, 28, 28, 0, 0, 28, 28, 0, 0, 0], &[21, 0, 28, 28, 0, 0, 28, 28, 0, 0, 28, 28, 0, 0, 0]]),
    ("PageHeader", &[&[21, 2, 21, 210, 247, 1, 21, 176, 243, 2, 21, 142, 239, 3, 28, 21, 160, 209, 10, 21, 8, 21, 10, 21, 12, 28, 24, 3, 255, 31, 128, 24, 3, 255, 32, 128, 22, 224, 170, 188, 31, 22, 230, 179, 182, 32, 24, 3, 255, 35, 128, 24, 3, 255, 36, 128, 18, 17, 0, 0, 28, 0, 28, 21, 152, 192, 14, 21, 16, 18, 0, 28, 21, 212, 183, 16, 21, 178, 179, 17, 21, 144, 175, 18, 21, 6, 21, 204, 166, 20, 21, 170, 162, 21, 18, 28, 24, 3, 255, 49, 128, 24, 3, 255, 50, 128, 22, 204, 205, 209, 48, 22, 210, 214, 203, 49, 24, 3, 255, 53, 128, 24, 3, 255, 54, 128, 18, 17, 0, 0, 0], &[21, 6, 21, 142, 239, 3, 21, 236, 234, 4, 21, 202, 230, 5, 28, 21, 152, 192, 14, 21, 16, 21, 18, 21, 0, 28, 24, 3, 255, 39, 128, 24, 3, 255, 40, 128, 22, 144, 243, 140, 39, 22, 150, 252, 134, 40, 24, 3, 255, 43, 128, 24, 3, 255, 44, 128, 18, 17, 0, 0, 28, 0, 28, 21, 144, 175, 18, 21, 6, 18, 0, 28, 21, 204, 166, 20, 21, 170, 162, 21, 21, 136, 158, 22, 21, 14, 21, 196, 149, 24, 21, 162, 145, 25, 18, 28, 24, 3, 255, 57, 128, 24, 3, 255, 58, 128, 22, 252, 149, 162, 56, 22, 130, 159, 156, 57, 24, 3, 255, 61, 128, 24, 3, 255, 62, 128, 18, 17, 0, 0, 0], &[21, 0, 21, 0, 21, 0, 0]]),
    ("KeyValue", &[&[24, 2, 115, 49, 24, 2, 115, 50, 0], &[24, 2, 115, 51, 24, 2, 115, 52, 0], &[24, 0, 0]]),
    ("SortingColumn", &[&[21, 244, 123, 17, 18, 0], &[21, 176, 243, 2, 17, 18, 0], &[21, 0, 18, 18, 0]]),
    ("PageEncodingStats", &[&[21, 2, 21, 6, 21, 176, 243, 2, 0], &[21, 6, 21, 10, 21, 236, 234, 4, 0], &[21, 0, 21, 0, 21, 0, 0]]),
    ("ColumnMetaData", &[&[21, 2, 25, 37, 4, 8, 37, 6, 22, 178, 164, 232, 3, 22, 184, 173, 226, 4, 22, 190, 182, 220, 5, 25, 44, 24, 3, 115, 52, 53, 24, 3, 115, 52, 54, 0, 24, 3, 115, 52, 55, 24, 3, 115, 52, 56, 0, 22, 202, 200, 208, 7, 38, 208, 209, 202, 8, 28, 24, 3, 255, 21, 128, 24, 3, 255, 22, 128, 22, 164, 208, 247, 21, 22, 170, 217, 241, 22, 24, 3, 255, 25, 128, 24, 3, 255, 26, 128, 18, 17, 0, 25, 44, 21, 2, 21, 16, 21, 168, 209, 68, 0, 21, 6, 21, 0, 21, 228, 200, 70, 0, 22, 226, 236, 184, 11, 21, 220, 200, 12, 28, 22, 200, 134, 212, 27, 25, 38, 188, 183, 228, 86, 194, 192, 222, 87, 25, 38, 206, 210, 210, 89, 212, 219, 204, 90, 0, 28, 28, 23, 0, 0, 0, 0, 0, 192, 79, 64, 23, 0, 0, 0, 0, 0, 32, 80, 64, 23, 0, 0, 0, 0, 0, 96, 80, 64, 23, 0, 0, 0, 0, 0, 160, 80, 64, 23, 0, 0, 0, 0, 0, 224, 80, 64, 23, 0, 0, 0, 0, 0, 32, 81, 64, 23, 0, 0, 0, 0, 0, 96, 81, 64, 23, 0, 0, 0, 0, 0, 160, 81, 64, 0, 25, 37, 180, 226, 93, 146, 222, 94, 0, 0], &[21, 6, 25, 37, 8, 12, 37, 10, 22, 190, 182, 220, 5, 22, 196, 191, 214, 6, 22, 202, 200, 208, 7, 25, 44, 24, 3, 115, 53, 55, 24, 3, 115, 53, 56, 0, 24, 3, 115, 53, 57, 24, 3, 115, 54, 48, 0, 22, 214, 218, 196, 9, 38, 220, 227, 190, 10, 28, 24, 3, 255, 25, 128, 24, 3, 255, 26, 128, 22, 188, 244, 223, 25, 22, 194, 253, 217, 26, 24, 3, 255, 29, 128, 24, 3, 255, 30, 128, 18, 17, 0, 25, 44, 21, 2, 21, 4, 21, 144, 158, 80, 0, 21, 6, 21, 8, 21, 204, 149, 82, 0, 22, 238, 254, 172, 13, 21, 152, 192, 14, 28, 22, 224, 170, 188, 31, 25, 38, 132, 164, 157, 98, 138, 173, 151, 99, 25, 38, 150, 191, 139, 101, 156, 200, 133, 102, 0, 28, 28, 23, 0, 0, 0, 0, 0, 224, 81, 64, 23, 0, 0, 0, 0, 0, 32, 82, 64, 23, 0, 0, 0, 0, 0, 96, 82, 64, 23, 0, 0, 0, 0, 0, 160, 82, 64, 23, 0, 0, 0, 0, 0, 224, 82, 64, 23, 0, 0, 0, 0, 0, 32, 83, 64, 23, 0, 0, 0, 0, 0, 96, 83, 64, 23, 0, 0, 0, 0, 0, 160, 83, 64, 0, 25, 37, 156, 175, 105, 250, 170, 106, 0, 0], &[21, 0, 25, 5, 37, 0, 22, 0, 22, 0, 22, 0, 38, 0, 0]]),
    ("EncryptionWithFooterKey", &[&[0]]),
    ("EncryptionWithColumnKey", &[&[25, 40, 2, 115, 52, 2, 115, 53, 24, 3, 255, 2, 128, 0], &[25, 40, 3, 115, 49, 48, 3, 115, 49, 49, 24, 3, 255, 4, 128, 0], &[25, 8, 0]]),
    ("ColumnCryptoMetaData", &[&[28, 0, 0], &[44, 25, 40, 3, 115, 49, 54, 3, 115, 49, 55, 24, 3, 255, 6, 128, 0, 0]]),
    ("ColumnChunk", &[&[24, 2, 115, 49, 22, 166, 146, 244, 1, 28, 21, 14, 25, 37, 16, 20, 37, 2, 22, 214, 218, 196, 9, 22, 220, 227, 190, 10, 22, 226, 236, 184, 11, 25, 44, 24, 3, 115, 56, 49, 24, 3, 115, 56, 50, 0, 24, 3, 115, 56, 51, 24, 3, 115, 56, 52, 0, 22, 238, 254, 172, 13, 38, 244, 135, 167, 14, 28, 24, 3, 255, 33, 128, 24, 3, 255, 34, 128, 22, 236, 188, 176, 33, 22, 242, 197, 170, 34, 24, 3, 255, 37, 128, 24, 3, 255, 38, 128, 18, 17, 0, 25, 44, 21, 2, 21, 16, 21, 224, 183, 103, 0, 21, 6, 21, 0, 21, 156, 175, 105, 0, 22, 134, 163, 149, 17, 21, 144, 175, 18, 28, 22, 144, 243, 140, 39, 25, 38, 148, 253, 142, 121, 154, 134, 137, 122, 25, 38, 166, 152, 253, 123, 172, 161, 247, 124, 0, 28, 28, 23, 0, 0, 0, 0, 0, 224, 85, 64, 23, 0, 0, 0, 0, 0, 32, 86, 64, 23, 0, 0, 0, 0, 0, 96, 86, 64, 23, 0, 0, 0, 0, 0, 160, 86, 64, 23, 0, 0, 0, 0, 0, 224, 86, 64, 23, 0, 0, 0, 0, 0, 32, 87, 64, 23, 0, 0, 0, 0, 0, 96, 87, 64, 23, 0, 0, 0, 0, 0, 160, 87, 64, 0, 25, 37, 236, 200, 128, 1, 202, 196, 129, 1, 0, 0, 22, 178, 164, 232, 3, 21, 236, 234, 4, 22, 190, 182, 220, 5, 21, 168, 226, 6, 28, 28, 0, 0, 24, 3, 255, 9, 128, 0], &[24, 2, 115, 51, 22, 178, 164, 232, 3, 28, 21, 6, 25, 37, 6, 10, 37, 10, 22, 238, 254, 172, 13, 22, 244, 135, 167, 14, 22, 250, 144, 161, 15, 25, 44, 24, 4, 115, 49, 48, 53, 24, 4, 115, 49, 48, 54, 0, 24, 4, 115, 49, 48, 55, 24, 4, 115, 49, 48, 56, 0, 22, 134, 163, 149, 17, 38, 140, 172, 143, 18, 28, 24, 3, 255, 41, 128, 24, 3, 255, 42, 128, 22, 156, 133, 129, 41, 22, 162, 142, 251, 41, 24, 3, 255, 45, 128, 24, 3, 255, 46, 128, 18, 17, 0, 25, 44, 21, 2, 21, 10, 21, 176, 209, 126, 0, 21, 6, 21, 14, 21, 236, 200, 128, 1, 0, 22, 158, 199, 253, 20, 21, 136, 158, 22, 28, 22, 192, 187, 221, 46, 25, 38, 164, 214, 128, 144, 1, 170, 223, 250, 144, 1, 25, 38, 182, 241, 238, 146, 1, 188, 250, 232, 147, 1, 0, 28, 28, 23, 0, 0, 0, 0, 0, 224, 89, 64, 23, 0, 0, 0, 0, 0, 32, 90, 64, 23, 0, 0, 0, 0, 0, 96, 90, 64, 23, 0, 0, 0, 0, 0, 160, 90, 64, 23, 0, 0, 0, 0, 0, 224, 90, 64, 23, 0, 0, 0, 0, 0, 32, 91, 64, 23, 0, 0, 0, 0, 0, 96, 91, 64, 23, 0, 0, 0, 0, 0, 160, 91, 64, 0, 25, 37, 188, 226, 151, 1, 154, 222, 152, 1, 0, 0, 22, 190, 182, 220, 5, 21, 168, 226, 6, 22, 202, 200, 208, 7, 21, 228, 217, 8, 28, 28, 0, 0, 24, 3, 255, 11, 128, 0], &[38, 0, 0]]),
    ("RowGroup", &[&[25, 44, 24, 2, 115, 57, 22, 214, 218, 196, 9, 28, 21, 14, 25, 37, 12, 16, 37, 2, 22, 182, 235, 229, 24, 22, 188, 244, 223, 25, 22, 194, 253, 217, 26, 25, 44, 24, 4, 115, 49, 55, 55, 24, 4, 115, 49, 55, 56, 0, 24, 4, 115, 49, 55, 57, 24, 4, 115, 49, 56, 48, 0, 22, 206, 143, 206, 28, 38, 212, 152, 200, 29, 28, 24, 3, 255, 65, 128, 24, 3, 255, 66, 128, 22, 172, 222, 242, 63, 22, 178, 231, 236, 64, 24, 3, 255, 69, 128, 24, 3, 255, 70, 128, 18, 17, 0, 25, 44, 21, 2, 21, 10, 21, 160, 158, 196, 1, 0, 21, 6, 21, 14, 21, 220, 149, 198, 1, 0, 22, 230, 179, 182, 32, 21, 240, 234, 33, 28, 22, 208, 148, 207, 69, 25, 38, 212, 225, 213, 212, 1, 218, 234, 207, 213, 1, 25, 38, 230, 252, 195, 215, 1, 236, 133, 190, 216, 1, 0, 28, 28, 23, 0, 0, 0, 0, 0, 240, 98, 64, 23, 0, 0, 0, 0, 0, 16, 99, 64, 23, 0, 0, 0, 0, 0, 48, 99, 64, 23, 0, 0, 0, 0, 0, 80, 99, 64, 23, 0, 0, 0, 0, 0, 112, 99, 64, 23, 0, 0, 0, 0, 0, 144, 99, 64, 23, 0, 0, 0, 0, 0, 176, 99, 64, 23, 0, 0, 0, 0, 0, 208, 99, 64, 0, 25, 37, 172, 175, 221, 1, 138, 171, 222, 1, 0, 0, 22, 226, 236, 184, 11, 21, 220, 200, 12, 22, 238, 254, 172, 13, 21, 152, 192, 14, 28, 28, 0, 0, 24, 3, 255, 17, 128, 0, 24, 3, 115, 49, 49, 22, 226, 236, 184, 11, 28, 21, 6, 25, 37, 2, 6, 37, 10, 22, 206, 143, 206, 28, 22, 212, 152, 200, 29, 22, 218, 161, 194, 30, 25, 44, 24, 4, 115, 50, 48, 49, 24, 4, 115, 50, 48, 50, 0, 24, 4, 115, 50, 48, 51, 24, 4, 115, 50, 48, 52, 0, 22, 230, 179, 182, 32, 38, 236, 188, 176, 33, 28, 24, 3, 255, 73, 128, 24, 3, 255, 74, 128, 22, 220, 166, 195, 71, 22, 226, 175, 189, 72, 24, 3, 255, 77, 128, 24, 3, 255, 78, 128, 18, 17, 0, 25, 44, 21, 2, 21, 4, 21, 240, 183, 219, 1, 0, 21, 6, 21, 8, 21, 172, 175, 221, 1, 0, 22, 254, 215, 158, 36, 21, 232, 217, 37, 28, 22, 128, 221, 159, 77, 25, 38, 228, 186, 199, 235, 1, 234, 195, 193, 236, 1, 25, 38, 246, 213, 181, 238, 1, 252, 222, 175, 239, 1, 0, 28, 28, 23, 0, 0, 0, 0, 0, 240, 100, 64, 23, 0, 0, 0, 0, 0, 16, 101, 64, 23, 0, 0, 0, 0, 0, 48, 101, 64, 23, 0, 0, 0, 0, 0, 80, 101, 64, 23, 0, 0, 0, 0, 0, 112, 101, 64, 23, 0, 0, 0, 0, 0, 144, 101, 64, 23, 0, 0, 0, 0, 0, 176, 101, 64, 23, 0, 0, 0, 0, 0, 208, 101, 64, 0, 25, 37, 252, 200, 244, 1, 218, 196, 245, 1, 0, 0, 22, 238, 254, 172, 13, 21, 152, 192, 14, 22, 250, 144, 161, 15, 21, 212, 183, 16, 28, 28, 0, 0, 24, 3, 255, 19, 128, 0, 22, 166, 146, 244, 1, 22, 172, 155, 238, 2, 25, 44, 21, 128, 141, 26, 17, 18, 0, 21, 188, 132, 28, 17, 18, 0, 22, 184, 173, 226, 4, 22, 190, 182, 220, 5, 20, 180, 14, 0], &[25, 44, 24, 3, 115, 50, 49, 22, 158, 199, 253, 20, 28, 21, 14, 25, 37, 6, 10, 37, 2, 22, 198, 196, 215, 47, 22, 204, 205, 209, 48, 22, 210, 214, 203, 49, 25, 44, 24, 4, 115, 51, 50, 49, 24, 4, 115, 51, 50, 50, 0, 24, 4, 115, 51, 50, 51, 24, 4, 115, 51, 50, 52, 0, 22, 222, 232, 191, 51, 38, 228, 241, 185, 52, 28, 24, 3, 255, 113, 128, 24, 3, 255, 114, 128, 22, 204, 144, 214, 109, 22, 210, 153, 208, 110, 24, 3, 255, 117, 128, 24, 3, 255, 118, 128, 18, 17, 0, 25, 44, 21, 2, 21, 10, 21, 128, 184, 207, 2, 0, 21, 6, 21, 14, 21, 188, 175, 209, 2, 0, 22, 246, 140, 168, 55, 21, 192, 132, 57, 28, 22, 240, 198, 178, 115, 25, 38, 180, 248, 255, 221, 2, 186, 129, 250, 222, 2, 25, 38, 198, 147, 238, 224, 2, 204, 156, 232, 225, 2, 0, 28, 28, 23, 0, 0, 0, 0, 0, 240, 110, 64, 23, 0, 0, 0, 0, 0, 16, 111, 64, 23, 0, 0, 0, 0, 0, 48, 111, 64, 23, 0, 0, 0, 0, 0, 80, 111, 64, 23, 0, 0, 0, 0, 0, 112, 111, 64, 23, 0, 0, 0, 0, 0, 144, 111, 64, 23, 0, 0, 0, 0, 0, 176, 111, 64, 23, 0, 0, 0, 0, 0, 208, 111, 64, 0, 25, 37, 140, 201, 232, 2, 234, 196, 233, 2, 0, 0, 22, 170, 217, 241, 22, 21, 196, 149, 24, 22, 182, 235, 229, 24, 21, 128, 141, 26, 28, 28, 0, 0, 24, 3, 255, 29, 128, 0, 24, 3, 115, 50, 51, 22, 170, 217, 241, 22, 28, 21, 6, 25, 37, 14, 18, 37, 10, 22, 222, 232, 191, 51, 22, 228, 241, 185, 52, 22, 234, 250, 179, 53, 25, 44, 24, 4, 115, 51, 52, 53, 24, 4, 115, 51, 52, 54, 0, 24, 4, 115, 51, 52, 55, 24, 4, 115, 51, 52, 56, 0, 22, 246, 140, 168, 55, 38, 252, 149, 162, 56, 28, 24, 3, 255, 121, 128, 24, 3, 255, 122, 128, 22, 252, 216, 166, 117, 22, 130, 226, 160, 118, 24, 3, 255, 125, 128, 24, 3, 255, 126, 128, 18, 17, 0, 25, 44, 21, 2, 21, 4, 21, 208, 209, 230, 2, 0, 21, 6, 21, 8, 21, 140, 201, 232, 2, 0, 22, 142, 177, 144, 59, 21, 184, 243, 60, 28, 22, 160, 143, 131, 123, 25, 38, 196, 209, 241, 244, 2, 202, 218, 235, 245, 2, 25, 38, 214, 236, 223, 247, 2, 220, 245, 217, 248, 2, 0, 28, 28, 23, 0, 0, 0, 0, 0, 120, 112, 64, 23, 0, 0, 0, 0, 0, 136, 112, 64, 23, 0, 0, 0, 0, 0, 152, 112, 64, 23, 0, 0, 0, 0, 0, 168, 112, 64, 23, 0, 0, 0, 0, 0, 184, 112, 64, 23, 0, 0, 0, 0, 0, 200, 112, 64, 23, 0, 0, 0, 0, 0, 216, 112, 64, 23, 0, 0, 0, 0, 0, 232, 112, 64, 0, 25, 37, 220, 226, 255, 2, 186, 222, 128, 3, 0, 0, 22, 182, 235, 229, 24, 21, 128, 141, 26, 22, 194, 253, 217, 26, 21, 188, 132, 28, 28, 28, 0, 0, 24, 3, 255, 31, 128, 0, 22, 178, 164, 232, 3, 22, 184, 173, 226, 4, 25, 44, 21, 232, 217, 37, 17, 18, 0, 21, 164, 209, 39, 17, 18, 0, 22, 196, 191, 214, 6, 22, 202, 200, 208, 7, 20, 192, 18, 0], &[25, 12, 22, 0, 22, 0, 0]]),
    ("TypeDefinedOrder", &[&[0]]),
    ("ColumnOrder", &[&[28, 0, 0]]),
    ("PageLocation", &[&[22, 160, 137, 122, 21, 210, 247, 1, 22, 172, 155, 238, 2, 0], &[22, 172, 155, 238, 2, 21, 142, 239, 3, 22, 184, 173, 226, 4, 0], &[22, 0, 21, 0, 22, 0, 0]]),
    ("OffsetIndex", &[&[25, 44, 22, 208, 209, 202, 8, 21, 194, 213, 9, 22, 220, 227, 190, 10, 0, 22, 220, 227, 190, 10, 21, 254, 204, 11, 22, 232, 245, 178, 12, 0, 25, 38, 196, 191, 214, 6, 202, 200, 208, 7, 0], &[25, 44, 22, 152, 190, 131, 20, 21, 170, 162, 21, 22, 164, 208, 247, 21, 0, 22, 164, 208, 247, 21, 21, 230, 153, 23, 22, 176, 226, 235, 23, 0, 25, 38, 232, 245, 178, 12, 238, 254, 172, 13, 0], &[25, 12, 0]]),
    ("ColumnIndex", &[&[25, 34, 1, 2, 25, 40, 3, 255, 7, 128, 3, 255, 8, 128, 25, 40, 3, 255, 10, 128, 3, 255, 11, 128, 21, 2, 25, 38, 250, 144, 161, 15, 128, 154, 155, 16, 25, 38, 140, 172, 143, 18, 146, 181, 137, 19, 25, 38, 158, 199, 253, 20, 164, 208, 247, 21, 0], &[25, 34, 1, 2, 25, 40, 3, 255, 13, 128, 3, 255, 14, 128, 25, 40, 3, 255, 16, 128, 3, 255, 17, 128, 21, 0, 25, 38, 158, 199, 253, 20, 164, 208, 247, 21, 25, 38, 176, 226, 235, 23, 182, 235, 229, 24, 25, 38, 194, 253, 217, 26, 200, 134, 212, 27, 0], &[25, 2, 25, 8, 25, 8, 21, 0, 0]]),
    ("AesGcmV1", &[&[24, 3, 255, 1, 128, 24, 3, 255, 2, 128, 18, 0], &[24, 3, 255, 3, 128, 24, 3, 255, 4, 128, 18, 0], &[0]]),
    ("AesGcmCtrV1", &[&[24, 3, 255, 1, 128, 24, 3, 255, 2, 128, 18, 0], &[24, 3, 255, 3, 128, 24, 3, 255, 4, 128, 18, 0], &[0]]),
    ("EncryptionAlgorithm", &[&[28, 24, 3, 255, 3, 128, 24, 3, 255, 4, 128, 18, 0, 0], &[44, 24, 3, 255, 5, 128, 24, 3, 255, 6, 128, 18, 0, 0], &[28, 0, 0]]),
    ("FileMetaData", &[&[21, 244, 123, 25, 44, 21, 14, 21, 246, 187, 15, 21, 4, 24, 3, 115, 49, 56, 21, 144, 175, 18, 21, 40, 21, 204, 166, 20, 21, 170, 162, 21, 21, 136, 158, 22, 28, 140, 18, 28, 44, 0, 0, 0, 0, 0, 21, 2, 21, 178, 179, 17, 21, 2, 24, 3, 115, 50, 48, 21, 204, 166, 20, 21, 0, 21, 136, 158, 22, 21, 230, 153, 23, 21, 196, 149, 24, 28, 188, 0, 0, 0, 22, 172, 155, 238, 2, 25, 44, 25, 44, 24, 4, 115, 49, 54, 53, 22, 254, 221, 167, 158, 1, 28, 21, 14, 25, 37, 6, 10, 37, 2, 22, 134, 242, 171, 194, 2, 22, 140, 251, 165, 195, 2, 22, 146, 132, 160, 196, 2, 25, 44, 24, 5, 115, 50, 48, 52, 57, 24, 5, 115, 50, 48, 53, 48, 0, 24, 5, 115, 50, 48, 53, 49, 24, 5, 115, 50, 48, 53, 50, 0, 22, 158, 150, 148, 198, 2, 38, 164, 159, 142, 199, 2, 28, 24, 3, 255, 177, 128, 24, 3, 255, 178, 128, 22, 204, 235, 254, 146, 5, 22, 210, 244, 248, 147, 5, 24, 3, 255, 181, 128, 24, 3, 255, 182, 128, 18, 17, 0, 25, 44, 21, 2, 21, 10, 21, 128, 237, 213, 15, 0, 21, 6, 21, 14, 21, 188, 228, 215, 15, 0, 22, 182, 186, 252, 201, 2, 21, 128, 184, 207, 2, 28, 22, 240, 161, 219, 152, 5, 25, 38, 180, 137, 250, 205, 15, 186, 146, 244, 206, 15, 25, 38, 198, 164, 232, 208, 15, 204, 173, 226, 209, 15, 0, 28, 28, 23, 0, 0, 0, 0, 0, 222, 149, 64, 23, 0, 0, 0, 0, 0, 226, 149, 64, 23, 0, 0, 0, 0, 0, 230, 149, 64, 23, 0, 0, 0, 0, 0, 234, 149, 64, 23, 0, 0, 0, 0, 0, 238, 149, 64, 23, 0, 0, 0, 0, 0, 242, 149, 64, 23, 0, 0, 0, 0, 0, 246, 149, 64, 23, 0, 0, 0, 0, 0, 250, 149, 64, 0, 25, 37, 140, 254, 238, 15, 234, 249, 239, 15, 0, 0, 22, 138, 240, 155, 160, 1, 21, 164, 175, 163, 1, 22, 150, 130, 144, 162, 1, 21, 224, 166, 165, 1, 28, 28, 0, 0, 24, 3, 255, 173, 128, 0, 24, 4, 115, 49, 54, 55, 22, 138, 240, 155, 160, 1, 28, 21, 6, 25, 37, 14, 18, 37, 10, 22, 158, 150, 148, 198, 2, 22, 164, 159, 142, 199, 2, 22, 170, 168, 136, 200, 2, 25, 44, 24, 5, 115, 50, 48, 55, 51, 24, 5, 115, 50, 48, 55, 52, 0, 24, 5, 115, 50, 48, 55, 53, 24, 5, 115, 50, 48, 55, 54, 0, 22, 182, 186, 252, 201, 2, 38, 188, 195, 246, 202, 2, 28, 24, 3, 255, 185, 128, 24, 3, 255, 186, 128, 22, 252, 179, 207, 154, 5, 22, 130, 189, 201, 155, 5, 24, 3, 255, 189, 128, 24, 3, 255, 190, 128, 18, 17, 0, 25, 44, 21, 2, 21, 4, 21, 208, 134, 237, 15, 0, 21, 6, 21, 8, 21, 140, 254, 238, 15, 0, 22, 206, 222, 228, 205, 2, 21, 248, 166, 211, 2, 28, 22, 160, 234, 171, 160, 5, 25, 38, 196, 226, 235, 228, 15, 202, 235, 229, 229, 15, 25, 38, 214, 253, 217, 231, 15, 220, 134, 212, 232, 15, 0, 28, 28, 23, 0, 0, 0, 0, 0, 30, 150, 64, 23, 0, 0, 0, 0, 0, 34, 150, 64, 23, 0, 0, 0, 0, 0, 38, 150, 64, 23, 0, 0, 0, 0, 0, 42, 150, 64, 23, 0, 0, 0, 0, 0, 46, 150, 64, 23, 0, 0, 0, 0, 0, 50, 150, 64, 23, 0, 0, 0, 0, 0, 54, 150, 64, 23, 0, 0, 0, 0, 0, 58, 150, 64, 0, 25, 37, 220, 151, 134, 16, 186, 147, 135, 16, 0, 0, 22, 150, 130, 144, 162, 1, 21, 224, 166, 165, 1, 22, 162, 148, 132, 164, 1, 21, 156, 158, 167, 1, 28, 28, 0, 0, 24, 3, 255, 175, 128, 0, 22, 194, 253, 217, 26, 22, 200, 134, 212, 27, 25, 44, 21, 200, 243, 176, 1, 17, 18, 0, 21, 132, 235, 178, 1, 17, 18, 0, 22, 212, 152, 200, 29, 22, 218, 161, 194, 30, 20, 208, 67, 0, 25, 44, 24, 4, 115, 49, 55, 55, 22, 198, 202, 224, 169, 1, 28, 21, 14, 25, 37, 0, 4, 37, 2, 22, 150, 203, 157, 217, 2, 22, 156, 212, 151, 218, 2, 22, 162, 221, 145, 219, 2, 25, 44, 24, 5, 115, 50, 49, 57, 51, 24, 5, 115, 50, 49, 57, 52, 0, 24, 5, 115, 50, 49, 57, 53, 24, 5, 115, 50, 49, 57, 54, 0, 22, 174, 239, 133, 221, 2, 38, 180, 248, 255, 221, 2, 28, 24, 3, 255, 225, 128, 24, 3, 255, 226, 128, 22, 236, 157, 226, 192, 5, 22, 242, 166, 220, 193, 5, 24, 3, 255, 229, 128, 24, 3, 255, 230, 128, 18, 17, 0, 25, 44, 21, 2, 21, 10, 21, 224, 134, 225, 16, 0, 21, 6, 21, 14, 21, 156, 254, 226, 16, 0, 22, 198, 147, 238, 224, 2, 21, 208, 209, 230, 2, 28, 22, 144, 212, 190, 198, 5, 25, 38, 148, 160, 164, 215, 16, 154, 169, 158, 216, 16, 25, 38, 166, 187, 146, 218, 16, 172, 196, 140, 219, 16, 0, 28, 28, 23, 0, 0, 0, 0, 0, 94, 151, 64, 23, 0, 0, 0, 0, 0, 98, 151, 64, 23, 0, 0, 0, 0, 0, 102, 151, 64, 23, 0, 0, 0, 0, 0, 106, 151, 64, 23, 0, 0, 0, 0, 0, 110, 151, 64, 23, 0, 0, 0, 0, 0, 114, 151, 64, 23, 0, 0, 0, 0, 0, 118, 151, 64, 23, 0, 0, 0, 0, 0, 122, 151, 64, 0, 25, 37, 236, 151, 250, 16, 202, 147, 251, 16, 0, 0, 22, 210, 220, 212, 171, 1, 21, 140, 252, 174, 1, 22, 222, 238, 200, 173, 1, 21, 200, 243, 176, 1, 28, 28, 0, 0, 24, 3, 255, 185, 128, 0, 24, 4, 115, 49, 55, 57, 22, 210, 220, 212, 171, 1, 28, 21, 6, 25, 37, 8, 12, 37, 10, 22, 174, 239, 133, 221, 2, 22, 180, 248, 255, 221, 2, 22, 186, 129, 250, 222, 2, 25, 44, 24, 5, 115, 50, 50, 49, 55, 24, 5, 115, 50, 50, 49, 56, 0, 24, 5, 115, 50, 50, 49, 57, 24, 5, 115, 50, 50, 50, 48, 0, 22, 198, 147, 238, 224, 2, 38, 204, 156, 232, 225, 2, 28, 24, 3, 255, 233, 128, 24, 3, 255, 234, 128, 22, 156, 230, 178, 200, 5, 22, 162, 239, 172, 201, 5, 24, 3, 255, 237, 128, 24, 3, 255, 238, 128, 18, 17, 0, 25, 44, 21, 2, 21, 4, 21, 176, 160, 248, 16, 0, 21, 6, 21, 8, 21, 236, 151, 250, 16, 0, 22, 222, 183, 214, 228, 2, 21, 200, 192, 234, 2, 28, 22, 192, 156, 143, 206, 5, 25, 38, 164, 249, 149, 238, 16, 170, 130, 144, 239, 16, 25, 38, 182, 148, 132, 241, 16, 188, 157, 254, 241, 16, 0, 28, 28, 23, 0, 0, 0, 0, 0, 158, 151, 64, 23, 0, 0, 0, 0, 0, 162, 151, 64, 23, 0, 0, 0, 0, 0, 166, 151, 64, 23, 0, 0, 0, 0, 0, 170, 151, 64, 23, 0, 0, 0, 0, 0, 174, 151, 64, 23, 0, 0, 0, 0, 0, 178, 151, 64, 23, 0, 0, 0, 0, 0, 182, 151, 64, 23, 0, 0, 0, 0, 0, 186, 151, 64, 0, 25, 37, 188, 177, 145, 17, 154, 173, 146, 17, 0, 0, 22, 222, 238, 200, 173, 1, 21, 200, 243, 176, 1, 22, 234, 128, 189, 175, 1, 21, 132, 235, 178, 1, 28, 28, 0, 0, 24, 3, 255, 187, 128, 0, 22, 206, 143, 206, 28, 22, 212, 152, 200, 29, 25, 44, 21, 176, 192, 188, 1, 17, 18, 0, 21, 236, 183, 190, 1, 17, 18, 0, 22, 224, 170, 188, 31, 22, 230, 179, 182, 32, 20, 220, 71, 0, 25, 44, 24, 3, 115, 51, 51, 24, 3, 115, 51, 52, 0, 24, 3, 115, 51, 53, 24, 3, 115, 51, 54, 0, 24, 2, 115, 54, 25, 44, 28, 0, 0, 28, 0, 0, 28, 28, 24, 3, 255, 19, 128, 24, 3, 255, 20, 128, 18, 0, 0, 24, 3, 255, 9, 128, 0], &[21, 176, 243, 2, 25, 44, 21, 6, 21, 222, 136, 27, 21, 4, 24, 3, 115, 51, 48, 21, 248, 251, 29, 21, 20, 21, 180, 243, 31, 21, 146, 239, 32, 21, 240, 234, 33, 28, 60, 0, 0, 0, 21, 10, 21, 154, 128, 29, 21, 2, 24, 3, 115, 51, 50, 21, 180, 243, 31, 21, 24, 21, 240, 234, 33, 21, 206, 230, 34, 21, 172, 226, 35, 28, 92, 21, 152, 175, 76, 21, 246, 170, 77, 0, 0, 0, 22, 184, 173, 226, 4, 25, 44, 25, 44, 24, 4, 115, 50, 51, 55, 22, 174, 233, 252, 226, 1, 28, 21, 14, 25, 37, 6, 10, 37, 2, 22, 230, 136, 214, 203, 3, 22, 236, 145, 208, 204, 3, 22, 242, 154, 202, 205, 3, 25, 44, 24, 5, 115, 50, 57, 49, 51, 24, 5, 115, 50, 57, 49, 52, 0, 24, 5, 115, 50, 57, 49, 53, 24, 5, 115, 50, 57, 49, 54, 0, 22, 254, 172, 190, 207, 3, 38, 132, 182, 184, 208, 3, 28, 24, 3, 255, 209, 128, 24, 3, 255, 210, 128, 22, 140, 153, 211, 165, 7, 22, 146, 162, 205, 166, 7, 24, 3, 255, 213, 128, 24, 3, 255, 214, 128, 18, 17, 0, 25, 44, 21, 2, 21, 10, 21, 192, 135, 153, 22, 0, 21, 6, 21, 14, 21, 252, 254, 154, 22, 0, 22, 150, 209, 166, 211, 3, 21, 224, 209, 218, 3, 28, 22, 176, 207, 175, 171, 7, 25, 38, 244, 145, 247, 133, 22, 250, 154, 241, 134, 22, 25, 38, 134, 173, 229, 136, 22, 140, 182, 223, 137, 22, 0, 28, 28, 23, 0, 0, 0, 0, 0, 222, 158, 64, 23, 0, 0, 0, 0, 0, 226, 158, 64, 23, 0, 0, 0, 0, 0, 230, 158, 64, 23, 0, 0, 0, 0, 0, 234, 158, 64, 23, 0, 0, 0, 0, 0, 238, 158, 64, 23, 0, 0, 0, 0, 0, 242, 158, 64, 23, 0, 0, 0, 0, 0, 246, 158, 64, 23, 0, 0, 0, 0, 0, 250, 158, 64, 0, 25, 37, 204, 152, 178, 22, 170, 148, 179, 22, 0, 0, 22, 186, 251, 240, 228, 1, 21, 148, 252, 232, 1, 22, 198, 141, 229, 230, 1, 21, 208, 243, 234, 1, 28, 28, 0, 0, 24, 3, 255, 245, 128, 0, 24, 4, 115, 50, 51, 57, 22, 186, 251, 240, 228, 1, 28, 21, 6, 25, 37, 14, 18, 37, 10, 22, 254, 172, 190, 207, 3, 22, 132, 182, 184, 208, 3, 22, 138, 191, 178, 209, 3, 25, 44, 24, 5, 115, 50, 57, 51, 55, 24, 5, 115, 50, 57, 51, 56, 0, 24, 5, 115, 50, 57, 51, 57, 24, 5, 115, 50, 57, 52, 48, 0, 22, 150, 209, 166, 211, 3, 38, 156, 218, 160, 212, 3, 28, 24, 3, 255, 217, 128, 24, 3, 255, 218, 128, 22, 188, 225, 163, 173, 7, 22, 194, 234, 157, 174, 7, 24, 3, 255, 221, 128, 24, 3, 255, 222, 128, 18, 17, 0, 25, 44, 21, 2, 21, 4, 21, 144, 161, 176, 22, 0, 21, 6, 21, 8, 21, 204, 152, 178, 22, 0, 22, 174, 245, 142, 215, 3, 21, 216, 192, 222, 3, 28, 22, 224, 151, 128, 179, 7, 25, 38, 132, 235, 232, 156, 22, 138, 244, 226, 157, 22, 25, 38, 150, 134, 215, 159, 22, 156, 143, 209, 160, 22, 0, 28, 28, 23, 0, 0, 0, 0, 0, 30, 159, 64, 23, 0, 0, 0, 0, 0, 34, 159, 64, 23, 0, 0, 0, 0, 0, 38, 159, 64, 23, 0, 0, 0, 0, 0, 42, 159, 64, 23, 0, 0, 0, 0, 0, 46, 159, 64, 23, 0, 0, 0, 0, 0, 50, 159, 64, 23, 0, 0, 0, 0, 0, 54, 159, 64, 23, 0, 0, 0, 0, 0, 58, 159, 64, 0, 25, 37, 156, 178, 201, 22, 250, 173, 202, 22, 0, 0, 22, 198, 141, 229, 230, 1, 21, 208, 243, 234, 1, 22, 210, 159, 217, 232, 1, 21, 140, 235, 236, 1, 28, 28, 0, 0, 24, 3, 255, 247, 128, 0, 22, 138, 234, 146, 38, 22, 144, 243, 140, 39, 25, 44, 21, 184, 192, 246, 1, 17, 18, 0, 21, 244, 183, 248, 1, 17, 18, 0, 22, 156, 133, 129, 41, 22, 162, 142, 251, 41, 20, 152, 92, 0, 25, 44, 24, 4, 115, 50, 52, 57, 22, 246, 213, 181, 238, 1, 28, 21, 14, 25, 37, 0, 4, 37, 2, 22, 246, 225, 199, 226, 3, 22, 252, 234, 193, 227, 3, 22, 130, 244, 187, 228, 3, 25, 44, 24, 5, 115, 51, 48, 53, 55, 24, 5, 115, 51, 48, 53, 56, 0, 24, 5, 115, 51, 48, 53, 57, 24, 5, 115, 51, 48, 54, 48, 0, 22, 142, 134, 176, 230, 3, 38, 148, 143, 170, 231, 3, 28, 24, 3, 255, 1, 128, 24, 3, 255, 2, 128, 22, 172, 203, 182, 211, 7, 22, 178, 212, 176, 212, 7, 24, 3, 255, 5, 128, 24, 3, 255, 6, 128, 18, 17, 0, 25, 44, 21, 2, 21, 10, 21, 160, 161, 164, 23, 0, 21, 6, 21, 14, 21, 220, 152, 166, 23, 0, 22, 166, 170, 152, 234, 3, 21, 176, 235, 241, 3, 28, 22, 208, 129, 147, 217, 7, 25, 38, 212, 168, 161, 143, 23, 218, 177, 155, 144, 23, 25, 38, 230, 195, 143, 146, 23, 236, 204, 137, 147, 23, 0, 28, 28, 23, 0, 0, 0, 0, 0, 47, 160, 64, 23, 0, 0, 0, 0, 0, 49, 160, 64, 23, 0, 0, 0, 0, 0, 51, 160, 64, 23, 0, 0, 0, 0, 0, 53, 160, 64, 23, 0, 0, 0, 0, 0, 55, 160, 64, 23, 0, 0, 0, 0, 0, 57, 160, 64, 23, 0, 0, 0, 0, 0, 59, 160, 64, 23, 0, 0, 0, 0, 0, 61, 160, 64, 0, 25, 37, 172, 178, 189, 23, 138, 174, 190, 23, 0, 0, 22, 130, 232, 169, 240, 1, 21, 252, 200, 244, 1, 22, 142, 250, 157, 242, 1, 21, 184, 192, 246, 1, 28, 28, 0, 0, 24, 3, 255, 1, 128, 0, 24, 4, 115, 50, 53, 49, 22, 130, 232, 169, 240, 1, 28, 21, 6, 25, 37, 8, 12, 37, 10, 22, 142, 134, 176, 230, 3, 22, 148, 143, 170, 231, 3, 22, 154, 152, 164, 232, 3, 25, 44, 24, 5, 115, 51, 48, 56, 49, 24, 5, 115, 51, 48, 56, 50, 0, 24, 5, 115, 51, 48, 56, 51, 24, 5, 115, 51, 48, 56, 52, 0, 22, 166, 170, 152, 234, 3, 38, 172, 179, 146, 235, 3, 28, 24, 3, 255, 9, 128, 24, 3, 255, 10, 128, 22, 220, 147, 135, 219, 7, 22, 226, 156, 129, 220, 7, 24, 3, 255, 13, 128, 24, 3, 255, 14, 128, 18, 17, 0, 25, 44, 21, 2, 21, 4, 21, 240, 186, 187, 23, 0, 21, 6, 21, 8, 21, 172, 178, 189, 23, 0, 22, 190, 206, 128, 238, 3, 21, 168, 218, 245, 3, 28, 22, 128, 202, 227, 224, 7, 25, 38, 228, 129, 147, 166, 23, 234, 138, 141, 167, 23, 25, 38, 246, 156, 129, 169, 23, 252, 165, 251, 169, 23, 0, 28, 28, 23, 0, 0, 0, 0, 0, 79, 160, 64, 23, 0, 0, 0, 0, 0, 81, 160, 64, 23, 0, 0, 0, 0, 0, 83, 160, 64, 23, 0, 0, 0, 0, 0, 85, 160, 64, 23, 0, 0, 0, 0, 0, 87, 160, 64, 23, 0, 0, 0, 0, 0, 89, 160, 64, 23, 0, 0, 0, 0, 0, 91, 160, 64, 23, 0, 0, 0, 0, 0, 93, 160, 64, 0, 25, 37, 252, 203, 212, 23, 218, 199, 213, 23, 0, 0, 22, 142, 250, 157, 242, 1, 21, 184, 192, 246, 1, 22, 154, 140, 146, 244, 1, 21, 244, 183, 248, 1, 28, 28, 0, 0, 24, 3, 255, 3, 128, 0, 22, 150, 252, 134, 40, 22, 156, 133, 129, 41, 25, 44, 21, 160, 141, 130, 2, 17, 18, 0, 21, 220, 132, 132, 2, 17, 18, 0, 22, 168, 151, 245, 42, 22, 174, 160, 239, 43, 20, 164, 96, 0, 25, 44, 24, 3, 115, 52, 53, 24, 3, 115, 52, 54, 0, 24, 3, 115, 52, 55, 24, 3, 115, 52, 56, 0, 24, 2, 115, 56, 25, 44, 28, 0, 0, 28, 0, 0, 28, 28, 24, 3, 255, 23, 128, 24, 3, 255, 24, 128, 18, 0, 0, 24, 3, 255, 11, 128, 0], &[21, 0, 25, 12, 22, 0, 25, 12, 0]]),
    ("FileCryptoMetaData", &[&[28, 44, 24, 3, 255, 5, 128, 24, 3, 255, 6, 128, 18, 0, 0, 24, 3, 255, 2, 128, 0], &[28, 44, 24, 3, 255, 9, 128, 24, 3, 255, 10, 128, 18, 0, 0, 24, 3, 255, 4, 128, 0], &[28, 28, 0, 0, 0]]),
];
