--------------------------- MODULE EnvelopeTables ---------------------------
EXTENDS Integers
(* Normative tables of the spectral envelope, in 1/65536 *)

\* Code books of the low and high scale factors
LowBook == <<
  <<148297, 53301, -34747, -88909, -104826, -94437, -74961, -49493>>,
  <<193014, 158036, 62944, -29047, -80553, -101967, -98100, -73197>>,
  <<-143269, -129206, -117125, -125741, -117571, -88958, -46232, -3134>>,
  <<45462, 62627, 37698, -7511, -42340, -62413, -70389, -49682>>,
  <<-85034, -48521, -22634, -20531, -26410, -24381, -5134, 6360>>,
  <<59943, 114225, 125113, 101193, 71660, 42433, 2371, -19470>>,
  <<-164776, -189514, -131367, -49212, 28915, 78768, 86994, 79986>>,
  <<-60437, 41451, 71262, 39887, 8597, -19408, -13567, 8842>>,
  <<51795, 41183, 25763, 31458, 29348, 13745, 430, -5644>>,
  <<94880, 178520, 151443, 61280, -18006, -59119, -61649, -41530>>,
  <<51993, 943, -37214, -42910, -31422, -11396, 4458, 19341>>,
  <<178537, 193952, 121211, 36915, 9170, 23569, 45185, 41929>>,
  <<-34788, -13939, 378, 27844, 31007, 56288, 78061, 65286>>,
  <<110578, 159655, 152712, 116643, 94641, 99612, 96469, 64073>>,
  <<-193451, -104460, -7204, 25468, 33616, 41164, 53911, 57402>>,
  <<6677, 38657, 40570, 83055, 158572, 147570, 34507, -25991>>,
  <<175803, 86991, 8532, -22186, -24132, -12563, -10144, -15349>>,
  <<316341, 204438, 91432, 16403, -25796, -42170, -42112, -47395>>,
  <<5757, -37328, -75043, -109424, -120936, -102543, -73234, -34995>>,
  <<91162, 129857, 72919, -14425, -50788, -38933, 8974, 53624>>,
  <<25204, -10524, -35348, -34689, 12480, 167813, 184744, 43036>>,
  <<126634, 197283, 200897, 163912, 126543, 37497, -53198, -77098>>,
  <<11474, -49186, -68121, -74434, -68287, -997, 135691, 224755>>,
  <<-77868, 24038, 85825, 110317, 81986, 61760, 54149, 28833>>,
  <<166017, 138461, 82764, 49907, 34218, 7778, -29645, -45898>>,
  <<262072, 267323, 184999, 113120, 42411, -21702, -57937, -73857>>,
  <<33286, 104096, 113311, 65990, 24715, 31219, 71274, 71275>>,
  <<207655, 213551, 158748, 117602, 99731, 76806, 32073, -4082>>,
  <<124135, 81991, 38696, 39869, 57552, 73343, 66753, 40662>>,
  <<62186, 139749, 178484, 181526, 166650, 132413, 54398, -1806>>,
  <<-123225, -82858, 20410, 120370, 147872, 134230, 143869, 132815>>,
  <<16146, 62628, 99645, 129530, 127169, 146392, 130309, 83383>> >>
HighBook == <<
  <<15206, -66119, -140394, -155670, -146173, -142604, -150121, -165994>>,
  <<-84872, -117919, -123668, -118615, -115566, -120205, -118280, -113823>>,
  <<9128, -16920, -42651, -70003, -106122, -143368, -172856, -195230>>,
  <<-20743, -31310, -36121, -31771, -15623, -9373, 4477, 5787>>,
  <<57640, 19552, -59991, -144603, -179662, -187524, -189295, -193451>>,
  <<-19445, -63898, -89036, -64469, -42792, -64880, -105819, -157753>>,
  <<22347, 17623, 3692, 3271, -6253, -49818, -152540, -247173>>,
  <<-92556, -97335, -77728, -40960, 10086, 37774, 52107, 39096>>,
  <<-14997, -21871, -53040, -107209, -123526, -107805, -92088, -96119>>,
  <<-70221, -92908, -101510, -95221, -67622, -45262, -28105, -32438>>,
  <<-38731, -4664, 22657, 19697, -73312, -159966, -146050, -124197>>,
  <<-55603, -38222, 5901, 55380, 69843, 48338, 16816, -32241>>,
  <<74756, 63178, 24999, -31644, -119035, -183684, -211934, -226695>>,
  <<-24660, 2790, 33852, 16497, -14168, -35001, -41995, -57000>>,
  <<43582, 71952, 90664, 88033, 53935, 14148, -26537, -70140>>,
  <<-54150, -43987, -14975, 34012, 89602, 142884, 166197, 144259>>,
  <<92411, 49443, -85558, -122640, -81270, -83043, -133478, -189848>>,
  <<23684, -1442, -37970, -57634, -55750, -51079, -47984, -58219>>,
  <<28670, 20017, -484, -32483, -52865, -80237, -111515, -147123>>,
  <<42474, 44715, 16597, 4822, 20593, 15383, 9477, -4470>>,
  <<73348, 80914, 38612, -89910, -155383, -131583, -109241, -126243>>,
  <<9296, -7252, -18535, -432, 18739, 3018, -39492, -148484>>,
  <<33033, 54197, 73388, 77276, 70771, 45714, -59805, -234412>>,
  <<-32839, -21344, 1840, 17174, 23632, 41656, 62850, 85685>>,
  <<245741, 99839, -29997, -52344, -25351, -24635, -43112, -83994>>,
  <<-75536, -72614, -36872, -14455, -22927, -49377, -64789, -84404>>,
  <<67389, 71939, 50374, 13506, -22466, -49476, -68286, -98524>>,
  <<8443, 45183, 73628, 85809, 88809, 93265, 75829, 26629>>,
  <<87840, 91093, 68464, 41669, -18005, -101531, -160065, -198219>>,
  <<140144, 278339, 189880, 61127, -19190, -53111, -51699, -61299>>,
  <<37017, 104323, 157137, 199031, 174604, 91295, 26466, -43009>>,
  <<-27686, 21375, 91207, 146241, 171167, 174680, 157354, 115291>> >>
\* Gains of the shapes
ShapeGains == <<
  <<142640, 192864>>,
  <<99920, 240688, 285776, 336224>>,
  <<113584, 146112, 180048, 236928>>,
  <<69376, 81072, 94320, 130384, 163760, 205200, 269888, 318112>> >>
=============================================================================
