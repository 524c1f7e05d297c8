From 18e8a223ba4d4322cb395ece90ff62e4c2cf0847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 01/49] fix: correct the ISO-8859-3 code page tables and mark
 undefined bytes of ISO-8859-3

---
 include/textwolf/codepages.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index c4fc72c..e2c6c3e 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -40,7 +40,7 @@ private:
 			{
 				{{{0,0}}},
 				{{{260,161}, {728,162}, {321,163}, {317,165}, {346,166}, {352,169}, {350,170}, {356,171}, {377,172}, {381,174}, {379,175}, {261,177}, {731,178}, {322,179}, {318,181}, {347,182}, {711,183}, {353,185}, {351,186}, {357,187}, {378,188}, {733,189}, {382,190}, {380,191}, {340,192}, {258,195}, {313,197}, {262,198}, {268,200}, {280,202}, {282,204}, {270,207}, {272,208}, {323,209}, {327,210}, {336,213}, {344,216}, {366,217}, {368,219}, {354,222}, {341,224}, {259,227}, {314,229}, {263,230}, {269,232}, {281,234}, {283,236}, {271,239}, {273,240}, {324,241}, {328,242}, {337,245}, {345,248}, {367,249}, {369,251}, {355,254}, {729,255}, {0,0}}},
-				{{{294,161}, {728,162}, {292,165}, {304,168}, {350,169}, {286,170}, {308,171}, {379,173}, {295,175}, {293,180}, {305,183}, {351,184}, {287,185}, {309,186}, {380,188}, {266,193}, {264,194}, {288,208}, {284,211}, {364,216}, {348,217}, {267,223}, {265,224}, {289,238}, {285,241}, {365,246}, {349,247}, {729,248}, {0,0}}},
+				{{{294,161}, {728,162}, {292,166}, {304,169}, {350,170}, {286,171}, {308,172}, {379,175}, {295,177}, {293,182}, {305,185}, {351,186}, {287,187}, {309,188}, {380,191}, {266,197}, {264,198}, {288,213}, {284,216}, {364,221}, {348,222}, {267,229}, {265,230}, {289,245}, {285,248}, {365,253}, {349,254}, {729,255}, {0,0}}},
 				{{{260,161}, {312,162}, {342,163}, {296,165}, {315,166}, {352,169}, {274,170}, {290,171}, {358,172}, {381,174}, {261,177}, {731,178}, {343,179}, {297,181}, {316,182}, {711,183}, {353,185}, {275,186}, {291,187}, {359,188}, {330,189}, {382,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {298,207}, {272,208}, {325,209}, {332,210}, {310,211}, {370,217}, {360,221}, {362,222}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {299,239}, {273,240}, {326,241}, {333,242}, {311,243}, {371,249}, {361,253}, {363,254}, {729,255}, {0,0}}},
 				{{{286,208}, {304,221}, {350,222}, {287,240}, {305,253}, {351,254}, {0,0}}},
 				{{{260,161}, {274,162}, {290,163}, {298,164}, {296,165}, {310,166}, {315,168}, {272,169}, {352,170}, {358,171}, {381,172}, {362,174}, {330,175}, {261,177}, {275,178}, {291,179}, {299,180}, {297,181}, {311,182}, {316,184}, {273,185}, {353,186}, {359,187}, {382,188}, {8213,189}, {363,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {325,209}, {332,210}, {360,215}, {370,217}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {326,241}, {333,242}, {361,247}, {371,249}, {312,255}, {0,0}}},
@@ -86,7 +86,7 @@ public:
 		static const CodePage codePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 728, 321, 164, 317, 346, 167, 168, 352, 350, 356, 377, 173, 381, 379, 176, 261, 731, 322, 180, 318, 347, 711, 184, 353, 351, 357, 378, 733, 382, 380, 340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270, 272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223, 341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271, 273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 292, 167, 168, 304, 350, 286, 308, 173, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 380, 192, 193, 194, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 65533, 292, 167, 168, 304, 350, 286, 308, 173, 65533, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 65533, 380, 192, 193, 194, 65533, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 65533, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 65533, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 65533, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 312, 342, 164, 296, 315, 167, 168, 352, 274, 290, 358, 173, 381, 175, 176, 261, 731, 343, 180, 297, 316, 711, 184, 353, 275, 291, 359, 330, 382, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 298, 272, 325, 332, 310, 212, 213, 214, 215, 216, 370, 218, 219, 220, 360, 362, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 299, 273, 326, 333, 311, 244, 245, 246, 247, 248, 371, 250, 251, 252, 361, 363, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 286, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 304, 350, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 287, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 305, 351, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 274, 290, 298, 296, 310, 167, 315, 272, 352, 358, 381, 173, 362, 330, 176, 261, 275, 291, 299, 297, 311, 183, 316, 273, 353, 359, 382, 8213, 363, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 207, 208, 325, 332, 211, 212, 213, 214, 360, 216, 370, 218, 219, 220, 221, 222, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 239, 240, 326, 333, 243, 244, 245, 246, 361, 248, 371, 250, 251, 252, 253, 254, 312}},
@@ -97,7 +97,7 @@ public:
 		static const CodePage invcodePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 0, 196, 0, 0, 199, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 211, 212, 0, 214, 215, 0, 0, 218, 0, 220, 221, 0, 223, 0, 225, 226, 0, 228, 0, 0, 231, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 243, 244, 0, 246, 247, 0, 0, 250, 0, 252, 253, 0, 0}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 166, 167, 0, 0, 0, 0, 172, 0, 0, 174, 0, 176, 177, 178, 179, 0, 181, 182, 0, 0, 0, 0, 187, 0, 0, 189, 190, 191, 0, 192, 0, 0, 195, 196, 197, 198, 199, 200, 201, 202, 203, 0, 204, 205, 206, 207, 0, 209, 210, 0, 212, 213, 214, 215, 0, 0, 218, 219, 220, 221, 0, 222, 0, 0, 225, 226, 227, 228, 229, 230, 231, 232, 233, 0, 234, 235, 236, 237, 0, 239, 240, 0, 242, 243, 244, 245, 0, 0, 0}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 178, 179, 180, 181, 0, 183, 184, 0, 0, 0, 0, 189, 0, 0, 192, 193, 194, 0, 196, 0, 0, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 0, 214, 215, 0, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 0, 228, 0, 0, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 0, 246, 247, 0, 249, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 175, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 0, 212, 213, 214, 215, 216, 0, 218, 219, 220, 0, 0, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 0, 244, 245, 246, 247, 248, 0, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 0, 0, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 0, 0, 0, 167, 0, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 0, 0, 0, 183, 0, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 207, 208, 0, 0, 211, 212, 213, 214, 0, 216, 0, 218, 219, 220, 221, 222, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 239, 240, 0, 0, 243, 244, 245, 246, 0, 248, 0, 250, 251, 252, 253, 254, 0}},
-- 
2.43.0


From 53bf5f7856d79d461d7af107919d24ae1572dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 02/49] fix: characters of a code page above U+00FF are printed
 as their byte and not as reference

---
 include/textwolf/codepages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index e2c6c3e..f7cc0ae 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -132,7 +132,7 @@ public:
 		if (ch <= 255) rt = (unsigned char)m_invcd[ ch - 128];
 		if (rt == 0)
 		{
-			if (ch >= (1<<sizeof(unsigned short))) return 0;
+			if (ch > 0xFFFF) return 0;
 			std::map<unsigned short, unsigned char>::const_iterator fi = m_invovlcd->find( (unsigned short)ch);
 			if (fi == m_invovlcd->end()) return 0;
 			rt = fi->second;
-- 
2.43.0


From 4fa87690f5a9e76dcea050c210adbfb20d32a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 03/49] fix: UTF-16 lead surrogate followed by a unit below
 U+DC00 was decoded as a character

---
 include/textwolf/charset_utf16.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index 7ffbffc..f4bc940 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -128,7 +128,7 @@ public:
 			rt -= 0xD800;
 			rt *= 0x400;
 			unsigned short lo = (unsigned char)buf[ 2+MSB];
-			if ((lo - 0xDC) > 0x03) return 0xFFFF;
+			if (lo < 0xDC || lo > 0xDF) return 0xFFFF;
 			lo = (lo << 8) + (unsigned char)buf[ 2+LSB];
 			return rt + lo - 0xDC00 + 0x010000;
 		}
-- 
2.43.0


From dd0e328588610a05b88004d567996f68c8dc6795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 04/49] fix: accept an internal DTD subset directly following
 the name in a DOCTYPE declaration

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index dce9718..027f397 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -342,7 +342,7 @@ public:
 			[ ENTITYSL ](Osb,CDATA)(Dash,COMDASH2).fallback(ENTITY)
 			[ ENTITY   ](Gt,ENTITYE)(EndOfLine)(Cntrl)(Space)(Dq,ENTITYDQ)(Sq,ENTITYSQ)(Osb,ENTITYLC).fallback(ENTITYID)
 			[ ENTITYE  ].action(Return,DocAttribEnd).fallback(SEEKTOK)
-			[ ENTITYID ].action(ReturnIdentifier,DocAttribValue)(EndOfLine,Cntrl,Space,ENTITY)(Gt,ENTITYE).miss(ErrIllegalDocumentAttributeDef)
+			[ ENTITYID ].action(ReturnIdentifier,DocAttribValue)(EndOfLine,Cntrl,Space,ENTITY)(Osb,ENTITYLC)(Gt,ENTITYE).miss(ErrIllegalDocumentAttributeDef)
 			[ ENTITYSQ ].action(ReturnSQString,DocAttribValue)(Sq,ENTITY).miss(ErrStringNotTerminated)
 			[ ENTITYDQ ].action(ReturnDQString,DocAttribValue)(Dq,ENTITY).miss(ErrStringNotTerminated)
 			[ ENTITYLC ](Csb,ENTITY).other( ENTITYLC)
-- 
2.43.0


From 773de8748665c7a228583a7b643ddc4e2237ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 05/49] fix: a question mark inside a processing instruction
 does not have to end it

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 027f397..6d94ebf 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -311,7 +311,7 @@ public:
 			[ STARTTAG ](EndOfLine)(Cntrl)(Space)(Questm,XTAG)(Exclam,ENTITYSL).fallback(OPENTAG)
 			[ XTAG     ].action(ExpectIdentifierXML)(EndOfLine,Cntrl,Space,XTAGAISK)(Questm,XTAGEND).miss(ErrExpectedXMLTag)
 			[ PITAG    ](Questm,PITAGEND).other(PITAG)
-			[ PITAGEND ](Gt,CONTENT).miss(ErrExpectedTagEnd)
+			[ PITAGEND ](Gt,CONTENT)(Questm).other(PITAG)
 			[ XTAGEND  ](Gt,XTAGDONE)(EndOfLine)(Cntrl)(Space).miss(ErrExpectedTagEnd)
 			[ XTAGDONE ].action(Return,HeaderEnd).fallback(DOCSTART)
 			[ XTAGAISK ](EndOfLine)(Cntrl)(Space)(Questm,XTAGEND).fallback(XTAGANAM)
-- 
2.43.0


From 298acf7cd221794f398095ac37cc831ebd570d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 06/49] fix: a CDATA section whose content ends with a closing
 bracket is terminated by its end marker

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 6d94ebf..b3c8337 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -353,7 +353,7 @@ public:
 			[ CDATA    ].action(ExpectIdentifierCDATA)(Osb,CDATA1).miss(ErrExpectedCDATATag)
 			[ CDATA1   ](Csb,CDATA2).other(CDATA1)
 			[ CDATA2   ](Csb,CDATA3).other(CDATA1)
-			[ CDATA3   ](Gt,CONTENT).other(CDATA1)
+			[ CDATA3   ](Gt,CONTENT)(Csb).other(CDATA1)
 			[ EXIT     ].action(Return,Exit);
 		}
 	};
-- 
2.43.0


From b732da5f37a1196d0a1a6f3819483d921ac71a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 07/49] fix: IStreamIterator released its buffer twice after an
 assignment and an undefined pointer when default constructed

---
 include/textwolf/istreamiterator.hpp | 35 ++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 7d2b257..57083be 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -97,7 +97,8 @@ class IStreamIterator
 {
 public:
 	/// \brief Default constructor
-	IStreamIterator(){}
+	IStreamIterator()
+		:m_input(0),m_buf(0),m_bufsize(0),m_readsize(0),m_readpos(0),m_abspos(0){}
 	/// \brief Destructor
 	~IStreamIterator()
 	{
@@ -116,10 +117,25 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o iterator to copy
 	IStreamIterator( const IStreamIterator& o)
-		:m_input(o.m_input),m_buf((char*)std::malloc(o.m_bufsize)),m_bufsize(o.m_bufsize),m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_abspos)
+		:m_input(o.m_input),m_buf(copybuf(o)),m_bufsize(o.m_bufsize),m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_abspos)
+	{}
+
+	/// \brief Assignment operator
+	/// \param [in] o iterator to assign
+	IStreamIterator& operator=( const IStreamIterator& o)
 	{
-		if (!m_buf) throw std::bad_alloc();
-		std::memcpy( m_buf, o.m_buf, o.m_readsize);
+		if (this != &o)
+		{
+			char* buf = copybuf(o);
+			std::free( m_buf);
+			m_input = o.m_input;
+			m_buf = buf;
+			m_bufsize = o.m_bufsize;
+			m_readsize = o.m_readsize;
+			m_readpos = o.m_readpos;
+			m_abspos = o.m_abspos;
+		}
+		return *this;
 	}
 
 	/// \brief Element access
@@ -154,8 +170,19 @@ public:
 	}
 
 private:
+	/// \brief Get a copy of the buffer of an iterator
+	static char* copybuf( const IStreamIterator& o)
+	{
+		if (!o.m_buf) return 0;
+		char* rt = (char*)std::malloc( o.m_bufsize);
+		if (!rt) throw std::bad_alloc();
+		std::memcpy( rt, o.m_buf, o.m_readsize);
+		return rt;
+	}
+
 	bool fillbuf()
 	{
+		if (!m_input) return false;
 		m_abspos += m_readsize;
 		m_readsize = m_input->read( m_buf, m_bufsize);
 		m_readpos = 0;
-- 
2.43.0


From 461d343364e8af66b06d737ef5fdad5af31c3c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 08/49] fix: IStreamIterator leaked its buffer if the first
 read failed

---
 include/textwolf/istreamiterator.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 57083be..59ccb2d 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -111,7 +111,15 @@ public:
 		:m_input(input),m_buf((char*)std::malloc(bufsize)),m_bufsize(bufsize),m_readsize(0),m_readpos(0),m_abspos(0)
 	{
 		if (!m_buf) throw std::bad_alloc();
-		fillbuf();
+		try
+		{
+			fillbuf();
+		}
+		catch (...)
+		{
+			std::free( m_buf);
+			throw;
+		}
 	}
 
 	/// \brief Copy constructor
-- 
2.43.0


From b6b13c2edb2495ff524ae364ad2f09b25ffe7091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 09/49] fix: scanning never ended if the text ended inside a
 comment, processing instruction, CDATA section or DTD subset

---
 include/textwolf/xmlscanner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index b3c8337..74a199e 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -77,7 +77,7 @@ private:
 		size++;
 	}
 
-	/// \brief Define a transition for all control character types not firing yet in the last state defined
+	/// \brief Define a transition for all control character types except the end of text not firing yet in the last state defined
 	/// \param [in] nextState the follow state index defined for these transitions
 	void addOtherTransition( int nextState)
 	{
@@ -85,6 +85,8 @@ private:
 		if (nextState < 0 || nextState > MaxNofStates) throw exception( InvalidParamState);
 		for (unsigned int inputchr=0; inputchr<NofControlCharacter; inputchr++)
 		{
+			//... the end of text does not match, it has to be handled explicitly or ends in an error
+			if (inputchr == (unsigned int)EndOfText) continue;
 			if (tab[ size-1].next[ inputchr] == -1) tab[ size-1].next[ inputchr] = (unsigned char)nextState;
 		}
 		tab[ size-1].nofnext = NofControlCharacter;
-- 
2.43.0


From 25020a2d713267097b87bfbb89ca009500b84e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 10/49] fix: the XML scanner iterator returned the last item
 and not the error text as error

---
 include/textwolf/xmlscanner.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 74a199e..968c622 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -17,6 +17,7 @@
 #include "textwolf/traits.hpp"
 #include <map>
 #include <cstddef>
+#include <cstring>
 
 namespace textwolf {
 
@@ -1252,6 +1253,23 @@ public:
 		Element element;				///< currently visited element
 		ThisXMLScanner* input;				///< XML scanner
 
+		/// \brief Get the next element of the scanner (the value of an error is its description)
+		/// \param [in] mask element types that should be printed to the output buffer (1 -> print, 0 -> mask out, just return the element as event)
+		void fetch( unsigned short mask)
+		{
+			element.m_type = input->nextItem(mask);
+			if (element.m_type == ErrorOccurred)
+			{
+				element.m_content = getErrorString( input->error);
+				element.m_size = std::strlen( element.m_content);
+			}
+			else
+			{
+				element.m_content = input->getItemPtr();
+				element.m_size = input->getItemSize();
+			}
+		}
+
 		/// \brief Skip to the next element
 		/// \param [in] mask element types that should be printed to the output buffer (1 -> print, 0 -> mask out, just return the element as event)
 		/// \return iterator pointing to the next element
@@ -1259,9 +1277,7 @@ public:
 		{
 			if (input != 0)
 			{
-				element.m_type = input->nextItem(mask);
-				element.m_content = input->getItemPtr();
-				element.m_size = input->getItemSize();
+				fetch( mask);
 			}
 			return *this;
 		}
@@ -1299,9 +1315,7 @@ public:
 		{
 			if (doSkipToFirst)
 			{
-				element.m_type = input->nextItem();
-				element.m_content = input->getItemPtr();
-				element.m_size = input->getItemSize();
+				fetch( 0xFFFF);
 			}
 		}
 		/// \brief Constructor
-- 
2.43.0


From 94a18ab527cd802544bc5db684d37c0f2023ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 11/49] fix: bytes of a character skipped beyond the end of a
 chunk were read again at the start of the next chunk

---
 include/textwolf/sourceiterator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/textwolf/sourceiterator.hpp b/include/textwolf/sourceiterator.hpp
index c37a3b7..8da2758 100644
--- a/include/textwolf/sourceiterator.hpp
+++ b/include/textwolf/sourceiterator.hpp
@@ -96,9 +96,12 @@ public:
 	/// \param[in] eom longjmp to call with parameter 1, if the end of data has been reached before EOF (null termination), eom=null, if the chunk passed contains the complete reset of the input and eof (null) can be returned if we reach the end
 	void putInput( const char* buf, std::size_t size, jmp_buf* eom=0)
 	{
+		//... bytes of a character skipped beyond the end of the previous chunk are skipped in this one
+		std::size_t skipped = (m_eom && m_itr > m_end)?(std::size_t)(m_itr - m_end):0;
 		m_abspos += size;
 		m_start = m_itr = const_cast<char*>(buf);
 		m_end = m_itr+size;
+		m_itr += skipped;
 		m_eom = eom;
 	}
 
-- 
2.43.0


From 6486701347897ed2eab0ac98c27b827433527a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 12/49] fix: named entities of the entity map were looked up by
 the address of the name

---
 include/textwolf/xmlscanner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 968c622..2c8423e 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -953,7 +953,9 @@ private:
 		}
 		else if (m_entityMap)
 		{
-			EntityMap::const_iterator itr = m_entityMap->find( str);
+			//... the keys of the map are compared by their address, so we have to search by value
+			EntityMap::const_iterator itr = m_entityMap->begin();
+			for (; itr != m_entityMap->end() && std::strcmp( itr->first, str) != 0; ++itr) {}
 			if (itr == m_entityMap->end())
 			{
 				error = ErrUndefinedCharacterEntity;
-- 
2.43.0


From e246c7486b27197a685a521e25d2072dbbcfa263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 13/49] fix: numeric character references that are not valid
 were not printed as they appear in the input

---
 include/textwolf/xmlscanner.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 2c8423e..ef514f5 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -584,6 +584,7 @@ private:
 			case TokState::ParsingNumericBaseEntity:
 				push('&');
 				push('#');
+				if (tokstate.base == 16) push('x');
 				for (unsigned int ii=0; ii<tokstate.pos; ii++) push( tokstate.buf[ii]);
 				break;
 			case TokState::ParsingNamedEntity:
@@ -643,9 +644,8 @@ private:
 			ch = m_src.ascii();
 			if (ch == ';')
 			{
-				if (tokstate.value > 0xFFFFFFFF)
+				if (tokstate.pos == 0 || tokstate.value > 0xFFFFFFFF)
 				{
-					tokstate.buf[ tokstate.pos++] = ch;
 					fallbackEntity();
 					return true;
 				}
-- 
2.43.0


From f47d2e402e05110fbbb0653c7f96537008974fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 14/49] fix: a copy of an XML scanner interrupted in a token
 did not continue the token

---
 include/textwolf/xmlscanner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index ef514f5..37e1082 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1022,11 +1022,13 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o scanner to copy
 	XMLScanner( const XMLScanner& o)
-		:state(o.state)
+		:tokstate(o.tokstate)
+		,state(o.state)
 		,error(o.error)
 		,m_src(o.m_src)
 		,m_entityMap(o.m_entityMap)
 		,m_outputBuf(o.m_outputBuf)
+		,m_output(o.m_output)
 		,m_tokenpos(o.m_tokenpos)
 	{}
 
-- 
2.43.0


From 55ba7758bef7baafef6fa05a5e03c06940e38a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 15/49] fix: a failure of a standard input stream without errno
 set was taken for the end of the input

---
 include/textwolf/istreamiterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 59ccb2d..67f7970 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -61,20 +61,20 @@ public:
 		}
 		catch (const std::istream::failure& err)
 		{
-			if (m_input->eof())
+			if (m_input->eof() && !m_input->bad())
 			{
 				m_errno = 0;
 				return m_input->gcount();
 			}
 			else
 			{
-				m_errno = errno;
+				m_errno = errno?errno:EIO;
 				return 0;
 			}
 		}
 		catch (...)
 		{
-			m_errno = errno;
+			m_errno = errno?errno:EIO;
 			return 0;
 		}
 	}
-- 
2.43.0


From b671e82cb5b022fe85ed162820f472bb7f41dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 16/49] fix: StaticBuffer allowed access to the element behind
 its content

---
 include/textwolf/staticbuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 48d47a1..e567194 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -123,7 +123,7 @@ public:
 	/// \return the character at this position
 	char operator []( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
@@ -132,7 +132,7 @@ public:
 	/// \return the reference to the character at this position
 	char& at( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
-- 
2.43.0


From fa5beb55e7523d3f72e6502b26ce0a6e55700dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 17/49] fix: the copy of a StaticBuffer using borrowed memory
 was never released

---
 include/textwolf/staticbuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index e567194..adbff29 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -45,7 +45,7 @@ public:
 		:m_pos(o.m_pos)
 		,m_size(o.m_size)
 		,m_ar(0)
-		,m_allocated(o.m_allocated)
+		,m_allocated(true)
 		,m_overflow(o.m_overflow)
 	{
 		m_ar = (char*)std::malloc( m_size * sizeof(char));
-- 
2.43.0


From f33fff11c7723c0e4725f042e505de66181e0268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 18/49] fix: assigning a StaticBuffer shared the memory and
 released it twice

---
 include/textwolf/staticbuffer.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index adbff29..6e0406a 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -53,6 +53,24 @@ public:
 		std::memcpy( m_ar, o.m_ar, m_size);
 	}
 
+	/// \brief Assignment operator
+	StaticBuffer& operator=( const StaticBuffer& o)
+	{
+		if (this != &o)
+		{
+			char* ar = (char*)std::malloc( o.m_size * sizeof(char));
+			if (!ar) throw std::bad_alloc();
+			std::memcpy( ar, o.m_ar, o.m_size);
+			if (m_allocated && m_ar) std::free(m_ar);
+			m_pos = o.m_pos;
+			m_size = o.m_size;
+			m_ar = ar;
+			m_allocated = true;
+			m_overflow = o.m_overflow;
+		}
+		return *this;
+	}
+
 	/// \brief Destructor
 	~StaticBuffer()
 	{
-- 
2.43.0


From 7f071705d1d08b8437a55e7ad255b513693e2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 19/49] fix: assigning a tag stack (or XML printer) shared its
 memory and released it twice

---
 include/textwolf/xmltagstack.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index 2732ae0..e5cc18f 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -44,6 +44,22 @@ public:
 		std::memcpy( m_ptr, o.m_ptr, m_pos);
 	}
 
+	/// \brief Assignment operator
+	TagStack& operator=( const TagStack& o)
+	{
+		if (this != &o)
+		{
+			char* ptr = (char*)std::malloc( o.m_size);
+			if (!ptr) throw std::bad_alloc();
+			std::memcpy( ptr, o.m_ptr, o.m_pos);
+			std::free( m_ptr);
+			m_ptr = ptr;
+			m_pos = o.m_pos;
+			m_size = o.m_size;
+		}
+		return *this;
+	}
+
 	/// \brief Push a tag on top
 	/// \param[out] pp pointer to tag value to push
 	/// \param[out] nn size of tag value to push in bytes
-- 
2.43.0


From a4097cec9e7e56e22a684322973dba8037767876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 20/49] fix: exception causes from NotAllowedOperation on had
 the text of another cause or none

---
 include/textwolf/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index bb70225..4ee5f25 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -74,7 +74,7 @@ struct exception	:public std::runtime_error
 		static const char* nameCause[ 17] = {
 			"Unknown","DimOutOfRange","StateNumbersNotAscending","InvalidParamState",
 			"InvalidParamChar","DuplicateStateTransition","InvalidState","IllegalParam",
-			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation"
+			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation",
 			"FileReadError","IllegalXmlHeader","InvalidTagOffset","CorruptTagStack",
 			"CodePageIndexNotSupported"
 		};
-- 
2.43.0


From 1eb631ed7867ad4e9ab859aab66c3bf27791d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 21/49] fix: the XML header and the DOCTYPE markup were read in
 the application character set encoding

---
 include/textwolf/xmlprinter.hpp | 41 ++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 8fa7be8..f1f2b5c 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -122,6 +122,14 @@ public:
 		printToBufferSubstChr( src, srcsize, buf, nof_echr, echr, estr);
 	}
 
+	/// \brief Prints an ASCII string (independent of the application character set encoding)
+	/// \param [in] str null terminated ASCII string to print
+	/// \param [in,out] buf buffer to print to
+	void printLiteral( const char* str, BufferType& buf) const
+	{
+		for (; *str; ++str) printToBuffer( *str, buf);
+	}
+
 	/// \brief Prints a character to an STL back insertion sequence buffer in the IO character set encoding
 	/// \param [in] ch character to print
 	/// \param [in,out] buf buffer to print to
@@ -169,19 +177,14 @@ public:
 			m_lasterror = "printing xml header not at the beginning of the document";
 			return false;
 		}
-		std::string enc = encoding?encoding:"UTF-8";
-		printToBuffer( "<?xml version=\"1.0\" encoding=\"", 30, buf);
-		printToBuffer( enc.c_str(), enc.size(), buf);
+		printLiteral( "<?xml version=\"1.0\" encoding=\"", buf);
+		printLiteral( encoding?encoding:"UTF-8", buf);
 		if (standalone)
 		{
-			printToBuffer( "\" standalone=\"", 14, buf);
-			printToBuffer( standalone, std::strlen(standalone), buf);
-			printToBuffer( "\"?>\n", 4, buf);
-		}
-		else
-		{
-			printToBuffer( "\"?>\n", 4, buf);
+			printLiteral( "\" standalone=\"", buf);
+			printLiteral( standalone, buf);
 		}
+		printLiteral( "\"?>\n", buf);
 		m_state = Content;
 		return true;
 	}
@@ -203,27 +206,27 @@ public:
 					m_lasterror = "defined DOCTYPE with PUBLIC id but no SYSTEM id";
 					return false;
 				}
-				printToBuffer( "<!DOCTYPE ", 10, buf);
+				printLiteral( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( " PUBLIC \"", 9, buf);
+				printLiteral( " PUBLIC \"", buf);
 				printToBuffer( publicid, std::strlen( publicid), buf);
-				printToBuffer( "\" \"", 3, buf);
+				printLiteral( "\" \"", buf);
 				printToBuffer( systemid, std::strlen( systemid), buf);
-				printToBuffer( "\">", 2, buf);
+				printLiteral( "\">", buf);
 			}
 			else if (systemid)
 			{
-				printToBuffer( "<!DOCTYPE ", 10, buf);
+				printLiteral( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( " SYSTEM \"", 9, buf);
+				printLiteral( " SYSTEM \"", buf);
 				printToBuffer( systemid, std::strlen( systemid), buf);
-				printToBuffer( "\">", 2, buf);
+				printLiteral( "\">", buf);
 			}
 			else
 			{
-				printToBuffer( "<!DOCTYPE ", 11, buf);
+				printLiteral( "<!DOCTYPE ", buf);
 				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( ">", 2, buf);
+				printLiteral( ">", buf);
 			}
 		}
 		return true;
-- 
2.43.0


From e629495f836827c23b9510e38b0423a83c2af335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 22/49] fix: carriage returns printed as content were read back
 as line feed

---
 include/textwolf/xmlprinter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index f1f2b5c..95a2358 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -117,8 +117,8 @@ public:
 	void printToBufferContent( const char* src, std::size_t srcsize, BufferType& buf) const
 	{
 		enum {nof_echr = 6};
-		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;"};
-		static const char echr[nof_echr+1] = "<>&\0\b";
+		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;", "&#13;"};
+		static const char echr[nof_echr+1] = "<>&\0\b\r";
 		printToBufferSubstChr( src, srcsize, buf, nof_echr, echr, estr);
 	}
 
-- 
2.43.0


From 5a9e64f6f50002a9093471b9587727b9a2889153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 23/49] fix: closing the tag context after an attribute name
 printed an attribute without value

---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 95a2358..445e603 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -244,6 +244,11 @@ public:
 				m_lasterror = "printed xml without root element";
 				return false;
 			}
+			if (m_state == TagAttribute)
+			{
+				m_lasterror = "attribute name without value";
+				return false;
+			}
 			printToBuffer( '>', buf);
 			m_state = Content;
 		}
-- 
2.43.0


From 395b99ca74dbff158e18f9d844e78b02a0fed328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 24/49] fix: rejected attribute and close tag left no error
 text

---
 include/textwolf/xmlprinter.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 445e603..7f8c7d2 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -286,6 +286,7 @@ public:
 			m_state = TagAttribute;
 			return true;
 		}
+		m_lasterror = "printing attribute outside of a tag";
 		return false;
 	}
 
@@ -319,6 +320,7 @@ public:
 
 		if (!m_tagstack.top( cltag, cltagsize) || !cltagsize)
 		{
+			m_lasterror = "printing close tag without an open tag";
 			return false;
 		}
 		if (m_state == TagElement)
@@ -329,6 +331,7 @@ public:
 		}
 		else if (m_state != Content)
 		{
+			m_lasterror = "printing close tag after an attribute name without value";
 			return false;
 		}
 		else
-- 
2.43.0


From bcd8511ad19d7a7fecd6c9f462f8936d47db63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 25/49] fix: a DOCTYPE declaration was printed inside of tags
 and before the header

---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 7f8c7d2..f058e1e 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -199,6 +199,11 @@ public:
 	{
 		if (rootid)
 		{
+			if (m_state != Content || !m_tagstack.empty())
+			{
+				m_lasterror = "printing DOCTYPE declaration not between the header and the root element";
+				return false;
+			}
 			if (publicid)
 			{
 				if (!systemid)
-- 
2.43.0


From 5c250c691a0237924a778b4d52eac4bed3a6471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 26/49] fix: index ranges of path expressions counted every
 element twice

---
 include/textwolf/xmlpathselect.hpp | 34 ++----------------------------
 1 file changed, 2 insertions(+), 32 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 7a44e1c..d12ce82 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -149,36 +149,6 @@ private:
 		}
 	}
 
-	/// \brief produce an element adressed by token index
-	/// \param [in] tokenidx index of the token in the list of active tokens
-	/// \param [in] st state from which the expand was triggered
-	void produce( unsigned int tokenidx, const State& st)
-	{
-		const Token& tk = tokens[ tokenidx];
-		if (tk.core.cnt_end == -1)
-		{
-			expand( st.next);
-		}
-		else
-		{
-			if (tk.core.cnt_end > 0)
-			{
-				if (--tokens[ tokenidx].core.cnt_end == 0)
-				{
-					tokens[ tokenidx].core.mask.reset();
-				}
-				if (tk.core.cnt_start <= 0)
-				{
-					expand( st.next);
-				}
-				else
-				{
-					--tokens[ tokenidx].core.cnt_start;
-				}
-			}
-		}
-	}
-
 	/// \brief check if an active token addressed by index matches to the currently processed element
 	/// \param [in] tokenidx index of the token in the list of active tokens
 	/// \return matching token type
@@ -201,14 +171,14 @@ private:
 						for (ii=0; ii<context.keysize && st.key[ii] == context.key[ii]; ii++);
 						if (ii==context.keysize)
 						{
-							produce( tokenidx, st);
+							expand( st.next);
 							tk = &tokens[ tokenidx];
 						}
 					}
 				}
 				else
 				{
-					produce( tokenidx, st);
+					expand( st.next);
 					tk = &tokens[ tokenidx];
 				}
 				if (tk->core.typeidx != 0)
-- 
2.43.0


From 9ebc52ff5f628105f823bb67aa4b753257b89a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 27/49] fix: tag wildcard in path expressions matched the XML
 header

---
 include/textwolf/xmlpathselect.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index d12ce82..d720519 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -176,8 +176,9 @@ private:
 						}
 					}
 				}
-				else
+				else if (context.type != XMLScannerBase::HeaderStart)
 				{
+					//... the XML header is only selected by name, it is not an element matching to any
 					expand( st.next);
 					tk = &tokens[ tokenidx];
 				}
-- 
2.43.0


From 2a0b76f19b8a03403eb520752e2dc4245139d699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 28/49] fix: attribute condition with any value was mixed up
 with one with an empty value

---
 include/textwolf/xmlpathautomaton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 67cf83b..dfadbad 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -454,7 +454,7 @@ private:
 
 			for (int ee=stateidx; ee != -1; stateidx=ee,ee=states[ee].link)
 			{
-				if ((states[ee].key != 0) && (keysize == states[ee].keysize) && (states[ee].core.follow == follow) && (mask == states[ee].core.mask))
+				if ((key != 0) && (states[ee].key != 0) && (keysize == states[ee].keysize) && (states[ee].core.follow == follow) && (mask == states[ee].core.mask))
 				{
 					unsigned int ii;
 					for (ii=0; ii<keysize && states[ee].key[ii]==key[ii]; ii++);
-- 
2.43.0


From 8ebed6dbefa9e7729a3df0d5705547cfcfadd625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 29/49] fix: attributes of descendants were not selected
 anymore after a content element

---
 include/textwolf/xmlpathselect.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index d720519..5910b97 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -205,9 +205,10 @@ private:
 					}
 				}
 			}
-			if (tk->core.mask.rejects( context.type))
+			if (!tk->core.follow && tk->core.mask.rejects( context.type))
 			{
 				//The token must not match anymore after encountering a reject item
+				//(not valid for tokens active in all sub scopes too, because the reject item ends only the search in its scope)
 				tk->core.mask.reset();
 			}
 		}
-- 
2.43.0


From 761ba4a98c82e4c25c4e19c2cfefca28a666dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 30/49] fix: copy of a path selector lost the current scope

---
 include/textwolf/xmlpathselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 5910b97..f7bcd29 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -305,7 +305,7 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o element to copy
 	XMLPathSelect( const XMLPathSelect& o)
-		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens){}
+		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens),context(o.context){}
 
 	/// \class iterator
 	/// \brief input iterator for the output of this XMLScanner
-- 
2.43.0


From 9563cdd65c19bdc4a1a5f3b9cf83ac4e2af45956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 31/49] fix: selector state depended on how the results of an
 element were read

---
 include/textwolf/xmlpathselect.hpp | 35 ++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index f7bcd29..99813a8 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -83,6 +83,7 @@ private:
 	StackType_<unsigned int> follows;	//< indices of tokens active in all descendant scopes
 	StackType_<int> triggers;		//< triggered elements
 	StackType_<Token> tokens;		//< list of waiting tokens
+	StackType_<int> results;		//< results of the element processed last
 	Context context;			//< state variables without stacks of the automaton
 
 	/// \brief Activate a state by index
@@ -261,6 +262,19 @@ private:
 		return type;
 	}
 
+	/// \brief Process an element of the XMLScanner input completely, so that the state after does not depend on how the results are read
+	/// \param [in] type type of the current element processed
+	/// \param [in] key current element processed
+	/// \param [in] keysize size of the key in bytes
+	void processElement( XMLScannerBase::ElementType type, const char* key, int keysize)
+	{
+		int element;
+		initProcessElement( type, key, keysize);
+		results.resize( 0);
+		while (0!=(element=fetch())) results.push_back( element);
+		closeProcessElement();
+	}
+
 public:
 	/// \brief Get the next states states that match to an element of a type
 	/// \tparam Buffer buffer type for the result (back insertion sequence)
@@ -297,7 +311,7 @@ public:
 	/// \brief Constructor
 	/// \param[in] p_atm read only ML path select automaton reference
 	XMLPathSelect( const ThisXMLPathSelectAutomaton* p_atm)
-		:atm(p_atm),scopestk(),follows(),triggers(),tokens()
+		:atm(p_atm),scopestk(),follows(),triggers(),tokens(),results()
 	{
 		if (atm->states.size() > 0) expand(0);
 	}
@@ -305,7 +319,7 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o element to copy
 	XMLPathSelect( const XMLPathSelect& o)
-		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens),context(o.context){}
+		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens),results(o.results),context(o.context){}
 
 	/// \class iterator
 	/// \brief input iterator for the output of this XMLScanner
@@ -321,14 +335,15 @@ public:
 	private:
 		int element;					//< currently visited element (type)
 		ThisXMLPathSelect* input;			//< producing XML path selection stream
+		std::size_t pos;				//< index of the next result to visit
 
 		/// \brief Skip to next element
 		/// \return *this
 		iterator& skip()
 		{
-			if (input != 0)
+			if (input != 0 && pos < input->results.size())
 			{
-				element = input->fetch();
+				element = input->results[ pos++];
 			}
 			else
 			{
@@ -352,6 +367,7 @@ public:
 		{
 			input = orig.input;
 			element = orig.element;
+			pos = orig.pos;
 		}
 
 		/// \brief Copy constructor
@@ -367,20 +383,15 @@ public:
 		/// \param [in] p_key XML element value reference to feed to XML path matcher
 		/// \param [in] p_keysize XML element value size in bytes to feed to XML path matcher
 		iterator( ThisXMLPathSelect& p_input, XMLScannerBase::ElementType p_type, const char* p_key, int p_keysize)
-				:input( &p_input)
+				:input( &p_input),pos(0)
 		{
-			input->initProcessElement( p_type, p_key, p_keysize);
+			input->processElement( p_type, p_key, p_keysize);
 			skip();
 		}
 
-		~iterator()
-		{
-			if (input) input->closeProcessElement();
-		}
-
 		/// \brief Default constructor
 		iterator()
-			:element(0),input(0) {}
+			:element(0),input(0),pos(0) {}
 
 		/// \brief Assignement
 		/// \param [in] orig iterator to copy
-- 
2.43.0


From 8fc9d899a7d72e24481137a9a173c9f4ea31956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 32/49] fix: numeric entities in the keys of path expressions
 were not decoded

---
 include/textwolf/xmlscanner.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 37e1082..a4ffb8d 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -531,11 +531,12 @@ private:
 	}
 
 	/// \brief Parse a numeric entity value for a table definition (map it to the target character set)
-	/// \param [in] ir input reader
-	/// \return the value of the entity parsed
+	/// \param [in] ir input reader pointing to the '&' starting the entity
+	/// \return the value of the entity parsed or 0 on error
 	static UChar parseStaticNumericEntityValue( InputReader& ir)
 	{
 		EChar value = 0;
+		ir.skip();
 		unsigned char ch = ir.ascii();
 		unsigned int base;
 		if (ch != '#') return 0;
@@ -826,6 +827,7 @@ public:
 				else if (ch == Amp)
 				{
 					pc = parseStaticNumericEntityValue( ir);
+					if (pc == 0) return false;
 				}
 				else
 				{
-- 
2.43.0


From 5b9c87eb2d5e4fe14fb488e9e02763e3382e1f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 33/49] fix: keys of path expressions were truncated at
 delimiters and beyond 1024 bytes

---
 include/textwolf/xmlpathautomaton.hpp | 14 ++++++++------
 include/textwolf/xmlscanner.hpp       | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index dfadbad..95150f1 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -581,20 +581,22 @@ public:
 		///\return *this
 		PathElement& doSelect( Operation op, const char* value)
 		{
-			static XMLScannerBase::IsTagCharMap isTagCharMap;
+			static const XMLScannerBase::IsTagCharMap isTagCharMap;
+			static const XMLScannerBase::IsKeyValueCharMap isValueCharMap;
 			if (xs != 0)
 			{
 				if (value)
 				{
-					char buf[ 1024];
-					StaticBuffer pb( buf, sizeof(buf));
+					std::string pb;
 					char* itr = const_cast<char*>(value);
-					typedef XMLScanner<char*,CharSet,CharSet,StaticBuffer> StaticXMLScanner;
-					if (!StaticXMLScanner::parseStaticToken( isTagCharMap, itr, pb))
+					typedef XMLScanner<char*,CharSet,CharSet,std::string> StaticXMLScanner;
+					const XMLScannerBase::IsTokenCharMap& isTok = (op == ThisAttributeValue)
+						? (const XMLScannerBase::IsTokenCharMap&)isValueCharMap : (const XMLScannerBase::IsTokenCharMap&)isTagCharMap;
+					if (!StaticXMLScanner::parseStaticToken( isTok, itr, pb))
 					{
 						throw exception( IllegalAttributeName);
 					}
-					stateidx = xs->defineNext( stateidx, op, pb.size(), pb.ptr(), value, follow);
+					stateidx = xs->defineNext( stateidx, op, pb.size(), pb.c_str(), value, follow);
 				}
 				else
 				{
diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index a4ffb8d..8e646ef 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -396,6 +396,16 @@ public:
 		}
 	};
 
+	/// \class IsKeyValueCharMap
+	/// \brief Defines the set of characters of a value as key in a table definition (anything but an encoded entity)
+	struct IsKeyValueCharMap :public IsContentCharMap
+	{
+		IsKeyValueCharMap()
+		{
+			(*this)(Lt,true);
+		}
+	};
+
 	/// \class IsSQStringCharMap
 	/// \brief Defines the set characters belonging to a single quoted string
 	struct IsSQStringCharMap :public IsContentCharMap
@@ -808,7 +818,7 @@ public:
 	/// \param [in] isTok set of valid token characters
 	/// \param [in] ir input reader iterator
 	/// \param [out] buf buffer where to write the result to
-	/// \return true on success
+	/// \return true on success, false if the source could not be parsed until its end as token
 	template <class OutputBufferType>
 	static bool parseStaticToken( const IsTokenCharMap& isTok, InputReader ir, OutputBufferType& buf)
 	{
@@ -831,7 +841,7 @@ public:
 				}
 				else
 				{
-					return true;
+					return (ch == EndOfText);
 				}
 				output.print( pc, buf);
 				ir.skip();
-- 
2.43.0


From c220db592304bfe2d0672f3db59b71387ce8d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 34/49] fix: identifier characters in path expressions were
 checked by their lowest byte only

---
 include/textwolf/xmlpathautomatonparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 3455af4..d215a35 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -282,7 +282,7 @@ private:
 		if (src.control() == Undef || src.control() == Any)
 		{
 			static const char opchr[] = "*~/(){}[]@,;";
-			return (0==std::strchr( opchr, *src));
+			return (*src > 127 || 0==std::strchr( opchr, (char)*src));
 		}
 		return false;
 	}
-- 
2.43.0


From 9a027e9cfbf034fd575b4f68ac0c72cdc4e74a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 35/49] fix: names with a dash were refused in path expressions

---
 include/textwolf/xmlpathautomatonparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index d215a35..b7ebec6 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -284,7 +284,7 @@ private:
 			static const char opchr[] = "*~/(){}[]@,;";
 			return (*src > 127 || 0==std::strchr( opchr, (char)*src));
 		}
-		return false;
+		return (src.control() == Dash);
 	}
 
 	class IdentifierBuf
-- 
2.43.0


From 8e617dc05364ad86e66531e7d57cc96ad475c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 36/49] fix: identifiers parsed were not terminated in the
 encoding of the automaton

---
 include/textwolf/xmlpathautomatonparse.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index b7ebec6..2b1e5d1 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -301,7 +301,7 @@ private:
 			{
 				atmcharset->print( *src, idlist.back());
 			}
-			return idlist.back().c_str();
+			return terminated( idlist.back());
 		}
 		const char* parseValue( SrcScanner& src)
 		{
@@ -314,7 +314,7 @@ private:
 					atmcharset->print( *src, idlist.back());
 				}
 				if (*src) ++src;
-				return idlist.back().c_str();
+				return terminated( idlist.back());
 			}
 			else if (isIdentifierChar(src))
 			{
@@ -341,6 +341,14 @@ private:
 			return rt;
 		}
 
+	private:
+		///\brief Get the identifier as string terminated by a null character in the character set encoding of the automaton
+		static const char* terminated( std::string& id)
+		{
+			id.append( 4, '\0'); //... the maximum size of a character in bytes
+			return id.c_str();
+		}
+
 	private:
 		const AtmCharSet* atmcharset;
 		std::list<std::string> idlist;
-- 
2.43.0


From 618b367ba46cf488b0970342f839bc72e3f63bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 37/49] fix: ampersand in attribute values of path expressions
 was interpreted as start of an entity

---
 include/textwolf/xmlpathautomatonparse.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 2b1e5d1..d49d0a8 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -311,7 +311,15 @@ private:
 				unsigned char eb = *src;
 				for (++src; *src && *src != eb; ++src)
 				{
-					atmcharset->print( *src, idlist.back());
+					if (*src == '&')
+					{
+						//... keys are defined with entities encoded
+						for (const char* cc="&#38;"; *cc; ++cc) atmcharset->print( *cc, idlist.back());
+					}
+					else
+					{
+						atmcharset->print( *src, idlist.back());
+					}
 				}
 				if (*src) ++src;
 				return terminated( idlist.back());
-- 
2.43.0


From 66a050d8119f624b662d7897b4da2f64e1e82e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 38/49] fix: unsupported axis separators were searched bytewise
 in path expressions of any encoding

---
 include/textwolf/xmlpathautomatonparse.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index d49d0a8..04c8dfe 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -45,15 +45,11 @@ public:
 	int addExpression( int typeidx, const char* esrc, std::size_t esrcsize)
 	{
 		// Check for namespaces, not supported:
-		char const* xx = (char const*)std::memchr( esrc, ':', esrcsize);
-		while (xx)
+		SrcScanner nsrc( m_srccharset, CStringIterator( esrc, esrcsize));
+		for (UChar prev=0; *nsrc; ++nsrc)
 		{
-			std::size_t xpos = xx - esrc;
-			if (xpos + 1 < esrcsize && xx[1] == ':')
-			{
-				return xpos+1;
-			}
-			xx = (char const*)std::memchr( xx+1, ':', esrcsize - (xpos+1));
+			if (prev == ':' && *nsrc == ':') return nsrc.getPosition();
+			prev = *nsrc;
 		}
 
 		// Parse the expression:
-- 
2.43.0


From bc88202481784ea2324cdbf0918d6b7efbc2d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 39/49] fix: path expressions ending with an operator waiting
 for a follow node were accepted

---
 include/textwolf/xmlpathautomatonparse.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 04c8dfe..1c5ea10 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -60,15 +60,18 @@ public:
 		enum ParseState {SelectStart,SelectTag,SelectAttribute,SelectTagId,SelectAttributeId,SelectContent,SelectCondition};
 		ParseState state = SelectStart;
 		std::vector<const char*> alt;
+		bool incomplete = false;	//< true, if the last token has to be followed by another one
 
 		for (; *src; skipSpaces( src))
 		{
+			incomplete = false;
 			switch (*src)
 			{
 				case '@':
 				{
 					if (state != SelectStart && state != SelectTag && state != SelectTagId && state != SelectCondition) return src.getPosition()+1;
 					++src;
+					incomplete = true;
 					state = SelectAttribute;
 					break;
 				}
@@ -76,9 +79,11 @@ public:
 				{
 					if (state != SelectStart && state != SelectCondition && state != SelectTagId) return src.getPosition()+1;
 					++src;
+					incomplete = (state != SelectStart); //... a single '/' addresses the root
 					if (*src == '/')
 					{
 						expr.forAllDescendants();
+						incomplete = true;
 						++src;
 					}
 					state = SelectTag;
@@ -204,6 +209,7 @@ public:
 					break;
 			}
 		}
+		if (incomplete) return src.getPosition()+1;
 		expr.assignType( typeidx);
 		return 0;
 	}
-- 
2.43.0


From b65a23fbf8c85f30ab6f6470824443ba3df2fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 40/49] fix: copy of a header parser lost the encoding and the
 last error

---
 include/textwolf/xmlhdrparser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlhdrparser.hpp b/include/textwolf/xmlhdrparser.hpp
index 12de679..1093d85 100644
--- a/include/textwolf/xmlhdrparser.hpp
+++ b/include/textwolf/xmlhdrparser.hpp
@@ -42,7 +42,9 @@ public:
 		,m_charsConsumed(o.m_charsConsumed)
 		,m_zeroCount(o.m_zeroCount)
 		,m_item(o.m_item)
-		,m_src(o.m_src){}
+		,m_src(o.m_src)
+		,m_encoding(o.m_encoding)
+		,m_lasterror(o.m_lasterror){}
 
 
 	/// \brief Add another input chunk to process
-- 
2.43.0


From e99fed47239ad36970d0f3c4309e5d89bcb95dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:43 +0000
Subject: [PATCH 41/49] fix: the first half only of a surrogate pair was copied
 by TextScanner::copychar

---
 include/textwolf/charset_utf16.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index f4bc940..7e8f784 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -50,9 +50,9 @@ public:
 	};
 
 public:
-	/// \brief See template<class Iterator>Interface::fetchbytes(char*,unsigned int&,Iterator&)
+	/// \brief Fetch the bytes of the first unit of the current character
 	template <class Iterator>
-	static inline void fetchbytes( char* buf, unsigned int& bufpos, Iterator& itr)
+	static inline void fetchunit( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
 		if (bufpos<2)
 		{
@@ -75,7 +75,7 @@ public:
 	template <class Iterator>
 	static inline unsigned int size( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		fetchbytes( buf, bufpos, itr);
+		fetchunit( buf, bufpos, itr);
 
 		UChar rt = (unsigned char)buf[ MSB];
 		if ((rt - 0xD8) > 0x03)
@@ -88,6 +88,18 @@ public:
 		}
 	}
 
+	/// \brief See template<class Iterator>Interface::fetchbytes(char*,unsigned int&,Iterator&)
+	template <class Iterator>
+	static inline void fetchbytes( char* buf, unsigned int& bufpos, Iterator& itr)
+	{
+		unsigned int bufsize = size( buf, bufpos, itr);
+		for (;bufpos < bufsize; ++bufpos)
+		{
+			buf[ bufpos] = *itr;
+			++itr;
+		}
+	}
+
 	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
 	template <class Iterator>
 	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
-- 
2.43.0


From 75f7d7be3889c57c4f5244efbeed04a6f274a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:12 +0000
Subject: [PATCH 42/49] fix: difference of two stream iterators ignored the
 buffers read in between

---
 include/textwolf/istreamiterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 67f7970..a600ba5 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -169,7 +169,7 @@ public:
 
 	int operator - (const IStreamIterator& o) const
 	{
-		return (int)m_readpos - o.m_readpos;
+		return (int)(position() - o.position());
 	}
 
 	PositionIndex position() const
-- 
2.43.0


From 97df00d63fd5f58bc33b47fa9d44b47bae1d80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:06 +0000
Subject: [PATCH 43/49] fix: combined index ranges of path expressions were not
 intersected

---
 include/textwolf/xmlpathautomaton.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 95150f1..a086c36 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -621,17 +621,19 @@ public:
 		///\return *this
 		PathElement& doRange( int p_start, int p_end)
 		{
-			if (range.end == -1)
+			if (p_end == -1)
 			{
-				range = Range( p_start, p_end);
+				if (p_start <= 0) return *this; //... no restriction
+				p_end = std::numeric_limits<int>::max();
 			}
-			else if (p_end < range.end)
+			if (range.end == -1)
 			{
-				range.end = p_end;
+				range = Range( p_start, p_end);
 			}
-			else if (p_start > range.start)
+			else
 			{
-				range.start = p_start;
+				if (p_end < range.end) range.end = p_end;
+				if (p_start > range.start) range.start = p_start;
 			}
 			return *this;
 		}
-- 
2.43.0


From ba703a7bedfd2aeaa1fa49454464eb54ffc7a5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 44/49] fix: an exception raised without memory ended the
 process (std::terminate)

---
 include/textwolf/exception.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index 4ee5f25..ae87305 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -52,11 +52,11 @@ struct exception	:public std::runtime_error
 
 	/// \brief Constructor
 	/// \return exception object
-	exception (Cause p_cause) throw()
+	exception (Cause p_cause)
 		:std::runtime_error("textwolf error in XML"), cause(p_cause) {}
 	/// \brief Copy constructor
 	exception (const exception& orig) throw()
-		:std::runtime_error("textwolf error in XML"), cause(orig.cause) {}
+		:std::runtime_error(orig), cause(orig.cause) {}
 	/// \brief Destructor
 	virtual ~exception() throw() {}
 
-- 
2.43.0


From faae638826c25321ba42ec88109921b40bc27e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 45/49] fix: the size of a tag stack was wrong after a failed
 allocation

---
 include/textwolf/xmltagstack.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index e5cc18f..549c508 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -69,11 +69,12 @@ public:
 		std::size_t ofs = nn + align + sizeof( std::size_t);
 		if (m_pos + ofs > m_size)
 		{
-			while (m_pos + ofs > m_size) m_size *= 2;
-			if (m_pos + ofs > m_size) throw std::bad_alloc();
+			std::size_t newsize = m_size;
+			while (m_pos + ofs > newsize) newsize *= 2;
 			if (nn > ofs) throw exception( InvalidTagOffset);
-			char* xx = (char*)std::realloc( m_ptr, m_size);
+			char* xx = (char*)std::realloc( m_ptr, newsize);
 			if (!xx) throw std::bad_alloc();
+			m_size = newsize;
 			m_ptr = xx;
 		}
 		std::memcpy( m_ptr + m_pos, pp, nn);
-- 
2.43.0


From 216c62fd5ffd67ccddb7434b051a17de8e507fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 46/49] fix: a failed allocation in the definition of a path
 expression left a broken automaton and lost memory

---
 include/textwolf/xmlpathautomaton.hpp | 45 +++++++++++++++------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index a086c36..65b4fba 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -254,28 +254,33 @@ public:
 		void defineKey( unsigned int p_keysize, const char* p_key, const char* p_srckey)
 		{
 			unsigned int ii;
-			if (key)
-			{
-				delete [] key;
-				key = 0;
-			}
-			if (srckey)
-			{
-				delete [] srckey;
-				srckey = 0;
-			}
+			char* newkey = 0;
+			char* newsrckey = 0;
 			if (p_key)
 			{
-				key = new char[ keysize=p_keysize];
-				for (ii=0; ii<keysize; ii++) key[ii]=p_key[ii];
+				newkey = new char[ p_keysize];
+				for (ii=0; ii<p_keysize; ii++) newkey[ii]=p_key[ii];
 			}
 			if (p_srckey)
 			{
 				for (ii=0; p_srckey[ii]!=0; ii++);
-				srckey = new char[ ii+1];
-				for (ii=0; p_srckey[ii]!=0; ii++) srckey[ii]=p_srckey[ii];
-				srckey[ ii] = 0;
+				try
+				{
+					newsrckey = new char[ ii+1];
+				}
+				catch (...)
+				{
+					delete [] newkey;
+					throw;
+				}
+				for (ii=0; p_srckey[ii]!=0; ii++) newsrckey[ii]=p_srckey[ii];
+				newsrckey[ ii] = 0;
 			}
+			if (key) delete [] key;
+			if (srckey) delete [] srckey;
+			key = newkey;
+			srckey = newsrckey;
+			if (key) keysize = p_keysize;
 		}
 
 		///\brief Define a state transition by key and operation
@@ -287,8 +292,8 @@ public:
 		///\param[in] p_follow true if the search reaches all included follow scopes of the definition scope
 		void defineNext( Operation op, unsigned int p_keysize, const char* p_key, const char* p_srckey, int p_next, bool p_follow=false)
 		{
-			core.mask.seekop( op);
 			defineKey( p_keysize, p_key, p_srckey);
+			core.mask.seekop( op);
 			next = p_next;
 			core.follow = p_follow;
 		}
@@ -467,9 +472,9 @@ private:
 				{
 					stateidx = states[ stateidx].link;
 				}
-				states[ stateidx].link = states.size();
-				stateidx = states.size();
 				states.push_back( state);
+				states[ stateidx].link = states.size()-1;
+				stateidx = states.size()-1;
 			}
 			states.push_back( state);
 			unsigned int lastidx = states.size()-1;
@@ -512,9 +517,9 @@ private:
 				{
 					stateidx = states[stateidx].link;
 				}
-				states[ stateidx].link = states.size();
-				stateidx = states.size();
 				states.push_back( state);
+				states[ stateidx].link = states.size()-1;
+				stateidx = states.size()-1;
 				
 			}
 			states[ stateidx].defineOutput( printOpMask, typeidx, follow, start, end);
-- 
2.43.0


From 0a8944fcbbf276ab782e4b6ed190d7981e9dda18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:57 +0000
Subject: [PATCH 47/49] fix: assigning a path automaton shared the keys of its
 states and released them twice

---
 include/textwolf/xmlpathautomaton.hpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 65b4fba..7705af3 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -42,6 +42,17 @@ public:
 
 	virtual ~XMLPathSelectAutomaton(){}
 
+	///\brief Assignment operator
+	///\param [in] orig automaton to assign to this
+	///\return *this
+	///\remark This automaton is left unchanged, if the copying fails
+	XMLPathSelectAutomaton& operator =( const XMLPathSelectAutomaton& orig)
+	{
+		std::vector<State> copy( orig.states);
+		states.swap( copy);
+		return *this;
+	}
+
 public:
 	///\enum Operation
 	///\brief Enumeration of operation types in the automaton definition
@@ -236,6 +247,22 @@ public:
 			defineKey( orig.keysize, orig.key, orig.srckey);
 		}
 
+		/// \brief Assignment operator
+		/// \param [in] orig state to assign to this
+		/// \return *this
+		State& operator =( const State& orig)
+		{
+			if (this != &orig)
+			{
+				defineKey( orig.keysize, orig.key, orig.srckey);
+				core = orig.core;
+				keysize = orig.keysize;
+				next = orig.next;
+				link = orig.link;
+			}
+			return *this;
+		}
+
 		///\brief Destructor
 		~State()
 		{
-- 
2.43.0


From c11961462ad9b52be08c7df18fe3fa6e331e9c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:15 +0000
Subject: [PATCH 48/49] fix: charset_interface.hpp includes the definition of
 UChar it needs

---
 include/textwolf/charset_interface.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/textwolf/charset_interface.hpp b/include/textwolf/charset_interface.hpp
index 0eec13c..dc6687e 100644
--- a/include/textwolf/charset_interface.hpp
+++ b/include/textwolf/charset_interface.hpp
@@ -11,6 +11,7 @@
 #ifndef __TEXTWOLF_CHARSET_INTERFACE_HPP__
 #define __TEXTWOLF_CHARSET_INTERFACE_HPP__
 #include <cstddef>
+#include "textwolf/char.hpp"
 #include "textwolf/staticbuffer.hpp"
 
 namespace textwolf {
-- 
2.43.0


From fd870b6b6ac9ecb21075af54c1adac46cfb151ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 49/49] fix: CStringIterator cut sizes and positions of strings
 of 4 GiB and more, differences of iterators were cut to int

---
 include/textwolf/cstringiterator.hpp | 15 ++++++++-------
 include/textwolf/istreamiterator.hpp |  4 ++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/textwolf/cstringiterator.hpp b/include/textwolf/cstringiterator.hpp
index b06e6bc..ca16af3 100644
--- a/include/textwolf/cstringiterator.hpp
+++ b/include/textwolf/cstringiterator.hpp
@@ -10,6 +10,7 @@
 
 #ifndef __TEXTWOLF_CSTRING_ITERATOR_HPP__
 #define __TEXTWOLF_CSTRING_ITERATOR_HPP__
+#include <cstddef>
 #include <string>
 #include <cstring>
 #include <cstdlib>
@@ -32,7 +33,7 @@ public:
 	/// \brief Constructor
 	/// \param [in] src null terminated C string to iterate on
 	/// \param [in] size number of bytes in the string to iterate on
-	CStringIterator( const char* src, unsigned int size)
+	CStringIterator( const char* src, std::size_t size)
 		:m_src(src)
 		,m_size(size)
 		,m_pos(0){}
@@ -73,21 +74,21 @@ public:
 	}
 
 	/// \brief Return current char position
-	inline unsigned int pos() const	{return m_pos;}
+	inline std::size_t pos() const	{return m_pos;}
 
 	/// \brief Set current char position
-	inline void pos( unsigned int i)	{m_pos=(i<m_size)?i:m_size;}
+	inline void pos( std::size_t i)	{m_pos=(i<m_size)?i:m_size;}
 
-	inline int operator - (const CStringIterator& o) const
+	inline std::ptrdiff_t operator - (const CStringIterator& o) const
 	{
 		if (m_src != o.m_src) return 0;
-		return (int)(m_pos - o.m_pos);
+		return (std::ptrdiff_t)(m_pos - o.m_pos);
 	}
 
 private:
 	const char* m_src;
-	unsigned int m_size;
-	unsigned int m_pos;
+	std::size_t m_size;
+	std::size_t m_pos;
 };
 
 }//namespace
diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index a600ba5..a0fb9cd 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -167,9 +167,9 @@ public:
 		return *this;
 	}
 
-	int operator - (const IStreamIterator& o) const
+	std::ptrdiff_t operator - (const IStreamIterator& o) const
 	{
-		return (int)(position() - o.position());
+		return (std::ptrdiff_t)(position() - o.position());
 	}
 
 	PositionIndex position() const
-- 
2.43.0

