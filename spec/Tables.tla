------------------------------- MODULE Tables -------------------------------
(* Normative integer tables of LC3 / LC3plus. Sequences are indexed from 1, the standard from 0:
   entry k of the standard is entry k+1 here. Durations dt: 0=2.5ms 1=5ms 2=7.5ms 3=10ms.
   Sample rates sr: 0..4 = 8,16,24,32,48 kHz, 5 = 48 kHz HR, 6 = 96 kHz HR. *)

\* samples and coded coefficients per 2.5 ms, samples per 4 ms
Ns2m5 == <<20,40,60,80,120,120,240>>
Ne2m5 == <<20,40,60,80,100,120,240>>
Ns4m == <<32,64,96,128,192,192,384>>
\* size limits of high-resolution frames [dt][48k,96k][min,max]; the half of the nominal minimum is accepted (fallback)
HrLim == <<
  <<<<27,210>>,<<31,210>>>>,
  <<<<46,375>>,<<54,375>>>>,
  <<<<0,0>>,<<0,0>>>>,
  <<<<78,625>>,<<93,625>>>>>>
\* lower bounds (in 1/1024) of the arithmetic coder symbols
TnsOrderModels == <<
  <<0,3,12,35,89,200,390,658,1024,1024,1024,1024,1024,1024,1024,1024,1024>>,
  <<0,14,56,156,313,494,672,839,1024,1024,1024,1024,1024,1024,1024,1024,1024>>>>
TnsCoefModels == <<
  <<0,1,6,21,52,106,192,289,409,568,720,831,935,994,1016,1022,1023>>,
  <<0,1,2,3,4,17,60,154,293,466,626,780,911,989,1016,1022,1023>>,
  <<0,1,2,3,4,13,56,162,361,578,788,929,1003,1020,1021,1022,1023>>,
  <<0,1,2,3,4,6,17,66,270,555,852,972,1011,1020,1021,1022,1023>>,
  <<0,1,2,3,4,5,12,54,295,636,950,1008,1017,1020,1021,1022,1023>>,
  <<0,1,2,3,4,5,6,19,224,590,967,1014,1019,1020,1021,1022,1023>>,
  <<0,1,2,3,4,5,6,19,300,630,1001,1018,1019,1020,1021,1022,1023>>,
  <<0,1,2,3,4,5,6,11,308,309,991,1017,1019,1020,1021,1022,1023>>>>
SpecModels == <<
  <<0,1,2,177,225,226,227,336,372,543,652,699,719,768,804,824,834>>,
  <<0,18,44,61,71,98,135,159,175,197,229,251,265,282,308,328,341>>,
  <<0,71,163,212,237,318,420,481,514,556,613,652,675,697,727,749,764>>,
  <<0,160,290,336,354,475,598,653,677,722,777,808,823,842,866,881,890>>,
  <<0,71,144,177,195,266,342,385,411,445,489,519,539,559,586,607,622>>,
  <<0,48,108,140,159,217,285,327,354,385,427,457,478,497,524,545,561>>,
  <<0,138,247,290,308,419,531,584,609,655,710,742,759,780,807,825,836>>,
  <<0,16,40,62,79,103,139,170,195,215,245,270,290,305,327,346,362>>,
  <<0,579,729,741,743,897,970,980,982,996,1007,1010,1011,1014,1017,1018,1019>>,
  <<0,398,582,607,612,788,902,925,931,956,979,987,990,996,1002,1005,1007>>,
  <<0,13,34,52,63,83,112,134,149,163,183,199,211,221,235,247,257>>,
  <<0,281,464,501,510,681,820,857,867,902,938,953,959,968,978,984,987>>,
  <<0,198,362,408,421,575,722,773,789,832,881,905,915,928,944,954,959>>,
  <<0,1,2,95,139,140,141,213,251,337,407,450,475,515,551,576,592>>,
  <<0,133,274,338,366,483,605,664,691,730,778,807,822,837,857,870,878>>,
  <<0,128,253,302,320,443,577,636,659,708,767,799,814,833,857,872,881>>,
  <<0,1,2,25,42,43,44,67,85,105,126,144,159,174,191,205,217>>,
  <<0,70,166,229,267,356,468,533,569,606,653,685,705,722,745,762,774>>,
  <<0,55,130,175,200,268,358,416,449,488,542,581,606,628,659,683,699>>,
  <<0,1,3,5,7,9,11,13,15,17,19,21,23,25,27,29,31>>,
  <<0,34,85,123,147,196,265,317,352,386,433,470,497,518,549,574,593>>,
  <<0,30,73,105,127,170,229,274,305,335,377,411,436,455,483,506,524>>,
  <<0,9,24,38,51,65,87,108,126,139,159,177,193,204,221,236,250>>,
  <<0,30,74,105,125,166,224,266,294,322,361,391,413,431,457,478,494>>,
  <<0,15,38,58,73,95,128,156,178,196,222,245,263,276,296,314,329>>,
  <<0,11,28,44,57,74,100,123,142,157,179,199,216,228,246,262,276>>,
  <<0,448,619,639,643,821,926,944,948,971,991,998,1000,1005,1010,1012,1013>>,
  <<0,332,520,549,555,741,874,903,910,940,970,981,985,991,998,1002,1004>>,
  <<0,8,21,34,45,58,78,96,112,124,141,157,170,180,194,207,219>>,
  <<0,239,415,457,468,631,776,820,833,872,914,933,940,951,964,971,975>>,
  <<0,165,310,359,375,513,652,707,727,774,828,856,868,884,904,916,923>>,
  <<0,3,8,13,18,23,30,37,44,48,55,62,68,72,78,84,90>>,
  <<0,115,237,289,311,422,547,608,635,680,737,771,788,807,832,849,859>>,
  <<0,107,221,272,293,399,521,582,610,656,714,749,767,787,813,831,842>>,
  <<0,6,16,26,35,45,60,75,89,98,112,125,137,145,157,168,178>>,
  <<0,72,160,210,236,320,422,482,514,555,608,644,665,685,712,732,745>>,
  <<0,45,108,153,183,244,327,385,421,455,502,536,559,578,605,626,641>>,
  <<0,1,2,9,16,17,18,26,34,40,48,55,62,68,75,82,88>>,
  <<0,29,73,108,132,174,236,284,318,348,391,426,452,471,500,524,543>>,
  <<0,20,51,76,93,123,166,200,225,247,279,305,326,342,365,385,401>>,
  <<0,742,845,850,851,959,997,1001,1002,1009,1014,1016,1017,1019,1020,1021,1022>>,
  <<0,42,94,121,137,186,244,280,303,330,366,392,410,427,451,470,484>>,
  <<0,13,33,51,66,85,114,140,161,178,203,225,243,256,275,292,307>>,
  <<0,501,670,689,693,848,936,952,956,975,991,997,999,1004,1008,1010,1011>>,
  <<0,445,581,603,609,767,865,888,895,926,954,964,968,977,986,991,993>>,
  <<0,285,442,479,489,650,779,818,830,870,912,930,937,949,963,971,975>>,
  <<0,349,528,561,569,731,852,883,892,923,953,965,970,978,987,992,994>>,
  <<0,199,355,402,417,563,700,750,767,811,860,884,894,909,926,936,942>>,
  <<0,141,275,325,343,471,606,664,686,734,791,822,836,854,877,891,899>>,
  <<0,243,437,493,510,649,775,820,836,869,905,923,931,941,953,960,964>>,
  <<0,91,197,248,271,370,487,550,580,625,684,721,741,761,788,807,819>>,
  <<0,107,201,242,262,354,451,503,531,573,626,660,680,701,730,751,765>>,
  <<0,168,339,407,432,553,676,731,755,789,830,854,866,879,895,906,912>>,
  <<0,67,147,191,214,290,384,441,472,513,567,604,627,648,678,700,715>>,
  <<0,46,109,148,171,229,307,359,391,427,476,513,537,558,588,612,629>>,
  <<0,848,918,920,921,996,1012,1013,1014,1016,1017,1018,1019,1020,1021,1022,1023>>,
  <<0,36,88,123,145,193,260,308,340,372,417,452,476,496,525,548,565>>,
  <<0,24,61,90,110,145,196,237,266,292,330,361,385,403,430,453,471>>,
  <<0,85,182,230,253,344,454,515,545,590,648,685,706,727,756,776,789>>,
  <<0,22,55,82,102,135,183,222,252,278,315,345,368,385,410,431,448>>,
  <<0,1,2,56,89,90,91,140,172,221,268,303,328,358,388,412,430>>,
  <<0,45,109,152,177,239,320,376,411,448,499,537,563,585,616,640,658>>,
  <<0,247,395,433,445,599,729,771,785,829,875,896,905,920,937,946,951>>,
  <<0,231,367,408,423,557,676,723,742,786,835,860,872,889,909,921,928>>>>
\* [high_rate*2+half][state] -> model index for k = 0..3 escapes
SpecLookup == <<
  <<<<1,13,0,0>>,<<39,13,0,0>>,<<7,13,0,0>>,<<25,13,0,0>>,<<22,13,0,0>>,<<22,13,0,0>>,<<28,13,0,0>>,<<22,13,0,0>>,<<22,60,0,0>>,<<22,60,0,0>>,<<22,60,0,0>>,<<28,60,0,0>>,<<28,60,0,0>>,<<28,60,13,0>>,<<34,60,13,0>>,<<31,16,13,0>>,<<31,16,13,0>>,<<40,0,0,0>>,<<43,0,0,0>>,<<46,0,0,0>>,<<49,0,0,0>>,<<52,0,0,0>>,<<14,0,0,0>>,<<17,0,0,0>>,<<36,0,0,0>>,<<36,0,0,0>>,<<36,0,0,0>>,<<38,0,0,0>>,<<0,0,0,0>>,<<57,0,0,0>>,<<38,13,0,0>>,<<22,60,0,0>>,<<0,0,0,0>>,<<8,0,0,0>>,<<9,0,0,0>>,<<11,0,0,0>>,<<47,0,0,0>>,<<14,0,0,0>>,<<14,0,0,0>>,<<17,0,0,0>>,<<36,0,0,0>>,<<36,0,0,0>>,<<36,0,0,0>>,<<38,0,0,0>>,<<59,0,0,0>>,<<59,0,0,0>>,<<38,13,0,0>>,<<22,60,0,0>>,<<22,60,0,0>>,<<26,0,0,0>>,<<46,0,0,0>>,<<29,0,0,0>>,<<30,0,0,0>>,<<32,0,0,0>>,<<33,0,0,0>>,<<35,0,0,0>>,<<36,0,0,0>>,<<36,0,0,0>>,<<36,0,0,0>>,<<38,0,0,0>>,<<0,13,0,0>>,<<59,13,0,0>>,<<23,13,0,0>>,<<22,60,0,0>>,<<46,60,0,0>>,<<46,0,0,0>>,<<45,0,0,0>>,<<47,0,0,0>>,<<48,0,0,0>>,<<50,0,0,0>>,<<50,0,0,0>>,<<18,0,0,0>>,<<54,0,0,0>>,<<54,0,0,0>>,<<54,0,0,0>>,<<38,0,0,0>>,<<59,13,0,0>>,<<59,13,0,0>>,<<59,13,0,0>>,<<22,60,0,0>>,<<0,60,0,0>>,<<62,0,0,0>>,<<63,0,0,0>>,<<3,0,0,0>>,<<33,0,0,0>>,<<2,0,0,0>>,<<2,0,0,0>>,<<61,0,0,0>>,<<20,0,0,0>>,<<20,0,0,0>>,<<20,13,0,0>>,<<21,13,0,0>>,<<59,13,0,0>>,<<59,13,0,0>>,<<39,13,0,0>>,<<28,60,0,0>>,<<28,60,0,0>>,<<63,0,0,0>>,<<63,0,0,0>>,<<3,0,0,0>>,<<33,0,0,0>>,<<2,0,0,0>>,<<2,0,0,0>>,<<61,0,0,0>>,<<38,0,0,0>>,<<38,0,0,0>>,<<38,13,0,0>>,<<21,13,0,0>>,<<59,13,0,0>>,<<59,13,0,0>>,<<39,13,0,0>>,<<28,60,0,0>>,<<28,60,0,0>>,<<6,0,0,0>>,<<6,0,0,0>>,<<6,0,0,0>>,<<2,0,0,0>>,<<18,0,0,0>>,<<61,0,0,0>>,<<20,0,0,0>>,<<21,0,0,0>>,<<21,0,0,0>>,<<21,13,0,0>>,<<59,13,0,0>>,<<39,13,0,0>>,<<39,13,0,0>>,<<7,13,0,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<51,0,0,0>>,<<51,0,0,0>>,<<51,0,0,0>>,<<53,0,0,0>>,<<54,0,0,0>>,<<20,0,0,0>>,<<38,0,0,0>>,<<38,0,0,0>>,<<57,0,0,0>>,<<39,13,0,0>>,<<39,13,0,0>>,<<39,13,0,0>>,<<7,13,0,0>>,<<24,13,0,0>>,<<34,60,13,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,60,0,0>>,<<4,0,0,0>>,<<4,0,0,0>>,<<4,0,0,0>>,<<4,0,0,0>>,<<56,0,0,0>>,<<38,0,0,0>>,<<57,0,0,0>>,<<57,13,0,0>>,<<59,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<42,13,0,0>>,<<42,13,0,0>>,<<34,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<0,60,13,0>>,<<5,0,0,0>>,<<4,0,0,0>>,<<4,0,0,0>>,<<5,0,0,0>>,<<21,0,0,0>>,<<21,0,0,0>>,<<59,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<25,13,0,0>>,<<25,13,0,0>>,<<25,13,0,0>>,<<34,60,13,0>>,<<4,13,0,0>>,<<4,13,0,0>>,<<4,13,0,0>>,<<4,13,0,0>>,<<5,13,0,0>>,<<23,13,0,0>>,<<23,13,0,0>>,<<39,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<42,13,0,0>>,<<25,13,0,0>>,<<25,13,0,0>>,<<22,13,0,0>>,<<31,60,13,0>>,<<31,60,13,0>>,<<39,60,0,0>>,<<39,60,0,0>>,<<39,60,0,0>>,<<39,60,0,0>>,<<7,60,0,0>>,<<7,60,0,0>>,<<42,60,0,0>>,<<0,60,0,0>>,<<25,60,0,0>>,<<22,60,0,0>>,<<22,60,0,0>>,<<22,60,0,0>>,<<28,60,0,0>>,<<34,60,0,0>>,<<31,16,13,0>>>>,
  <<<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,13,0>>,<<55,0,0,0>>,<<40,0,0,0>>,<<8,0,0,0>>,<<9,0,0,0>>,<<49,0,0,0>>,<<49,0,0,0>>,<<52,0,0,0>>,<<17,0,0,0>>,<<17,0,0,0>>,<<17,0,0,0>>,<<4,13,0,0>>,<<0,13,0,0>>,<<20,13,0,0>>,<<17,0,0,0>>,<<60,13,60,13>>,<<40,0,0,13>>,<<40,0,0,0>>,<<8,0,0,0>>,<<43,0,0,0>>,<<27,0,0,0>>,<<49,0,0,0>>,<<49,0,0,0>>,<<14,0,0,0>>,<<17,0,0,0>>,<<17,0,0,0>>,<<17,0,0,0>>,<<36,0,0,0>>,<<42,13,0,0>>,<<42,13,0,0>>,<<17,0,0,0>>,<<57,60,13,0>>,<<57,0,13,0>>,<<40,0,0,0>>,<<8,0,0,0>>,<<26,0,0,0>>,<<27,0,0,0>>,<<49,0,0,0>>,<<12,0,0,0>>,<<14,0,0,0>>,<<17,0,0,0>>,<<17,0,0,0>>,<<17,0,0,0>>,<<36,0,0,0>>,<<0,0,13,0>>,<<38,0,13,0>>,<<36,13,0,0>>,<<1,60,0,0>>,<<8,60,0,0>>,<<8,0,0,0>>,<<43,0,0,0>>,<<9,0,0,0>>,<<11,0,0,0>>,<<49,0,0,0>>,<<12,0,0,0>>,<<14,0,0,0>>,<<14,0,13,0>>,<<33,0,13,0>>,<<50,0,13,0>>,<<50,0,0,0>>,<<50,0,13,0>>,<<61,0,13,0>>,<<36,13,0,0>>,<<39,60,0,0>>,<<8,60,0,0>>,<<8,0,0,0>>,<<43,0,0,0>>,<<46,0,0,0>>,<<49,0,0,0>>,<<52,0,0,0>>,<<30,0,0,0>>,<<14,0,0,0>>,<<14,0,13,0>>,<<33,0,13,0>>,<<50,0,13,0>>,<<50,0,13,0>>,<<50,13,13,0>>,<<50,13,0,0>>,<<18,13,13,0>>,<<25,60,13,0>>,<<8,60,13,13>>,<<8,0,0,13>>,<<43,0,0,13>>,<<46,0,0,13>>,<<49,0,0,13>>,<<52,0,0,0>>,<<30,0,0,0>>,<<14,0,0,0>>,<<14,0,0,0>>,<<18,0,60,0>>,<<5,0,0,13>>,<<5,0,0,13>>,<<5,0,0,13>>,<<61,13,0,13>>,<<18,13,13,0>>,<<23,13,60,0>>,<<43,13,0,13>>,<<43,0,0,13>>,<<43,0,0,13>>,<<9,0,0,13>>,<<49,0,0,13>>,<<52,0,0,0>>,<<3,0,0,0>>,<<14,0,0,0>>,<<14,0,0,0>>,<<50,0,0,0>>,<<50,13,13,0>>,<<50,13,13,0>>,<<50,13,13,0>>,<<61,0,0,0>>,<<17,13,13,0>>,<<24,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,60,13,0>>,<<43,0,0,0>>,<<43,0,19,0>>,<<9,0,0,0>>,<<11,0,0,0>>,<<52,0,0,0>>,<<52,0,0,0>>,<<14,0,0,0>>,<<14,0,0,0>>,<<17,0,0,0>>,<<61,13,0,0>>,<<61,13,0,0>>,<<61,13,0,0>>,<<54,0,0,0>>,<<17,0,13,13>>,<<39,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,13,13,0>>,<<45,0,13,0>>,<<44,0,13,0>>,<<27,0,0,0>>,<<29,0,0,0>>,<<52,0,0,0>>,<<48,0,0,0>>,<<52,0,0,0>>,<<52,0,0,0>>,<<17,0,0,0>>,<<17,0,0,0>>,<<17,0,19,0>>,<<17,0,13,0>>,<<2,0,13,0>>,<<17,0,13,0>>,<<7,13,0,0>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<9,0,0,13>>,<<27,0,0,13>>,<<27,0,0,13>>,<<12,0,0,13>>,<<52,0,0,13>>,<<14,0,0,13>>,<<14,0,0,13>>,<<58,0,0,13>>,<<41,0,0,13>>,<<41,0,0,13>>,<<41,0,0,13>>,<<6,0,0,13>>,<<17,60,0,13>>,<<37,0,19,13>>,<<9,0,0,13>>,<<9,16,0,13>>,<<9,0,0,13>>,<<27,0,0,13>>,<<11,0,0,13>>,<<49,0,0,0>>,<<12,0,0,0>>,<<52,0,0,0>>,<<14,0,0,0>>,<<14,0,0,0>>,<<14,0,0,0>>,<<50,0,0,0>>,<<0,0,0,13>>,<<53,0,0,13>>,<<17,0,0,13>>,<<28,0,13,0>>,<<52,0,13,0>>,<<52,0,13,0>>,<<49,0,13,0>>,<<52,0,0,0>>,<<12,0,0,0>>,<<52,0,0,0>>,<<30,0,0,0>>,<<14,0,0,0>>,<<14,0,0,0>>,<<17,0,0,0>>,<<2,0,0,0>>,<<2,0,0,0>>,<<2,0,0,0>>,<<38,0,0,0>>,<<38,0,0,0>>,<<34,0,0,0>>>>,
  <<<<31,16,60,13>>,<<34,16,13,0>>,<<34,16,13,0>>,<<31,16,13,0>>,<<31,16,13,0>>,<<31,16,13,0>>,<<31,16,13,0>>,<<19,16,60,0>>,<<19,16,60,0>>,<<19,16,60,0>>,<<19,16,60,0>>,<<19,16,60,0>>,<<19,16,60,0>>,<<19,16,60,0>>,<<31,16,60,13>>,<<19,37,16,60>>,<<44,0,0,60>>,<<44,0,0,0>>,<<62,0,0,0>>,<<30,0,0,0>>,<<32,0,0,0>>,<<58,0,0,0>>,<<35,0,0,0>>,<<36,0,0,0>>,<<36,0,0,0>>,<<38,13,0,0>>,<<0,13,0,0>>,<<59,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<39,13,0,0>>,<<34,60,13,0>>,<<34,0,13,0>>,<<45,0,0,0>>,<<47,0,0,0>>,<<48,0,0,0>>,<<33,0,0,0>>,<<35,0,0,0>>,<<35,0,0,0>>,<<36,0,0,0>>,<<38,13,0,0>>,<<38,13,0,0>>,<<38,13,0,0>>,<<59,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<39,13,0,0>>,<<34,60,13,0>>,<<34,0,13,0>>,<<62,0,0,0>>,<<30,0,0,0>>,<<15,0,0,0>>,<<50,0,0,0>>,<<53,0,0,0>>,<<53,0,0,0>>,<<54,13,0,0>>,<<21,13,0,0>>,<<21,13,0,0>>,<<21,13,0,0>>,<<59,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<34,60,13,0>>,<<30,0,13,0>>,<<30,0,0,0>>,<<48,0,0,0>>,<<33,0,0,0>>,<<58,0,0,0>>,<<18,0,0,0>>,<<18,0,0,0>>,<<56,13,0,0>>,<<23,13,0,0>>,<<23,13,0,0>>,<<23,13,0,0>>,<<59,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<24,13,0,0>>,<<34,60,13,0>>,<<34,0,13,0>>,<<6,0,0,0>>,<<6,0,0,0>>,<<58,0,0,0>>,<<53,0,0,0>>,<<54,0,0,0>>,<<54,0,0,0>>,<<21,13,0,0>>,<<59,13,0,0>>,<<59,13,0,0>>,<<59,13,0,0>>,<<39,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<42,60,0,0>>,<<34,16,13,0>>,<<6,0,13,0>>,<<6,0,0,0>>,<<33,0,0,0>>,<<58,0,0,0>>,<<53,0,0,0>>,<<54,0,0,0>>,<<61,0,0,0>>,<<21,13,0,0>>,<<59,13,0,0>>,<<59,13,0,0>>,<<59,13,0,0>>,<<39,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<42,60,0,0>>,<<34,16,13,0>>,<<34,0,13,0>>,<<51,0,0,0>>,<<51,0,0,0>>,<<53,0,0,0>>,<<54,0,0,0>>,<<56,13,0,0>>,<<56,13,0,0>>,<<57,13,0,0>>,<<39,13,0,0>>,<<39,13,0,0>>,<<39,13,0,0>>,<<7,13,0,0>>,<<42,13,0,0>>,<<42,13,0,0>>,<<25,60,0,0>>,<<31,16,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<31,0,13,0>>,<<4,0,0,0>>,<<4,0,0,0>>,<<4,0,0,0>>,<<5,13,0,0>>,<<23,13,0,0>>,<<23,13,0,0>>,<<39,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<42,13,0,0>>,<<25,13,0,0>>,<<25,13,0,0>>,<<22,60,0,0>>,<<31,16,60,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<5,13,0,0>>,<<5,13,0,0>>,<<5,13,0,0>>,<<5,13,0,0>>,<<57,13,0,0>>,<<57,13,0,0>>,<<39,13,0,0>>,<<24,13,0,0>>,<<24,13,0,0>>,<<24,13,0,0>>,<<42,13,0,0>>,<<22,13,0,0>>,<<22,60,0,0>>,<<28,60,13,0>>,<<31,16,60,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<31,13,0,0>>,<<41,13,0,0>>,<<41,13,0,0>>,<<41,13,0,0>>,<<41,13,0,0>>,<<39,13,0,0>>,<<39,13,0,0>>,<<7,13,0,0>>,<<42,13,0,0>>,<<42,13,0,0>>,<<42,13,0,0>>,<<25,13,0,0>>,<<28,13,0,0>>,<<28,60,0,0>>,<<28,60,13,0>>,<<31,16,60,13>>,<<31,13,0,0>>,<<41,13,0,0>>,<<41,13,0,0>>,<<41,13,0,0>>,<<41,13,0,0>>,<<39,13,0,0>>,<<39,13,0,0>>,<<24,13,0,0>>,<<25,60,0,0>>,<<25,60,0,0>>,<<25,60,0,0>>,<<22,60,0,0>>,<<28,60,0,0>>,<<28,60,0,0>>,<<34,60,13,0>>,<<31,16,60,13>>,<<31,60,13,13>>,<<10,60,13,0>>,<<10,60,13,0>>,<<10,60,13,0>>,<<10,60,13,0>>,<<10,60,13,0>>,<<10,60,13,0>>,<<28,60,13,0>>,<<34,60,13,0>>,<<34,60,13,0>>,<<34,16,13,0>>,<<34,16,13,0>>,<<34,16,60,0>>,<<34,16,60,0>>,<<31,16,60,0>>,<<19,37,16,13>>>>,
  <<<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,16,0>>,<<8,0,0,0>>,<<9,0,0,0>>,<<11,0,0,0>>,<<47,0,0,0>>,<<32,0,0,0>>,<<50,0,0,0>>,<<18,0,0,0>>,<<18,0,0,0>>,<<20,0,0,0>>,<<21,0,0,0>>,<<21,0,0,0>>,<<21,13,0,0>>,<<39,13,0,0>>,<<59,13,0,0>>,<<34,16,60,0>>,<<26,0,0,0>>,<<26,0,0,0>>,<<27,0,0,0>>,<<29,0,0,0>>,<<30,0,0,0>>,<<33,0,0,0>>,<<50,0,0,0>>,<<18,0,0,0>>,<<18,0,0,0>>,<<20,0,0,0>>,<<57,0,0,0>>,<<57,13,0,0>>,<<57,13,0,0>>,<<59,13,0,0>>,<<59,13,0,0>>,<<34,16,60,0>>,<<27,0,0,0>>,<<27,0,0,0>>,<<11,0,0,0>>,<<12,0,0,0>>,<<48,0,0,0>>,<<50,0,0,0>>,<<58,0,0,0>>,<<61,0,0,0>>,<<61,0,0,0>>,<<56,0,0,0>>,<<57,13,0,0>>,<<57,13,0,0>>,<<57,13,0,0>>,<<59,13,0,0>>,<<39,13,0,0>>,<<34,16,60,0>>,<<45,0,0,0>>,<<45,0,0,0>>,<<12,0,0,0>>,<<30,0,0,0>>,<<32,0,0,0>>,<<2,0,0,0>>,<<2,0,0,0>>,<<61,0,0,0>>,<<38,0,0,0>>,<<38,0,0,0>>,<<38,13,0,0>>,<<57,13,0,0>>,<<0,13,0,0>>,<<59,13,0,0>>,<<39,13,0,0>>,<<34,16,60,0>>,<<63,0,0,0>>,<<63,0,0,0>>,<<3,0,0,0>>,<<32,0,0,0>>,<<58,0,0,0>>,<<18,0,0,0>>,<<18,0,0,0>>,<<20,0,0,0>>,<<21,0,0,0>>,<<21,0,0,0>>,<<21,13,0,0>>,<<59,13,0,0>>,<<39,13,0,0>>,<<39,13,0,0>>,<<7,13,13,0>>,<<31,16,60,0>>,<<31,0,0,0>>,<<3,0,0,0>>,<<3,0,0,0>>,<<33,0,0,0>>,<<58,0,0,0>>,<<18,0,0,0>>,<<18,0,0,0>>,<<20,0,0,0>>,<<21,0,0,0>>,<<21,0,0,0>>,<<21,13,0,0>>,<<59,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<7,13,13,0>>,<<31,16,60,0>>,<<6,0,0,0>>,<<6,0,0,0>>,<<51,0,0,0>>,<<51,0,0,0>>,<<53,0,0,0>>,<<54,0,0,0>>,<<54,0,0,0>>,<<38,0,0,0>>,<<57,13,0,0>>,<<57,13,0,0>>,<<57,13,0,0>>,<<39,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<42,60,13,0>>,<<31,16,60,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<51,0,0,0>>,<<53,0,0,0>>,<<53,0,0,0>>,<<54,0,0,0>>,<<56,0,0,0>>,<<56,0,0,0>>,<<57,13,0,0>>,<<59,13,0,0>>,<<59,13,0,0>>,<<59,13,0,0>>,<<7,13,0,0>>,<<24,13,0,0>>,<<24,13,0,0>>,<<25,60,13,0>>,<<31,16,60,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<31,0,0,0>>,<<4,0,0,0>>,<<4,0,0,0>>,<<4,0,0,0>>,<<54,0,0,0>>,<<21,13,0,0>>,<<21,0,0,0>>,<<57,13,0,0>>,<<39,13,0,0>>,<<39,13,0,0>>,<<39,13,0,0>>,<<7,13,0,0>>,<<42,13,13,0>>,<<42,13,13,0>>,<<22,60,13,0>>,<<31,16,60,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<31,16,0,0>>,<<5,0,0,0>>,<<5,0,0,0>>,<<5,0,0,0>>,<<5,13,0,0>>,<<23,13,0,0>>,<<23,13,0,0>>,<<59,13,0,0>>,<<7,13,0,0>>,<<7,13,0,0>>,<<7,13,13,0>>,<<42,13,13,0>>,<<22,60,13,0>>,<<22,60,13,0>>,<<28,60,13,0>>,<<31,16,60,0>>,<<31,13,0,0>>,<<4,13,0,0>>,<<4,13,0,0>>,<<4,13,0,0>>,<<5,13,0,0>>,<<23,13,0,0>>,<<23,13,0,0>>,<<39,13,13,0>>,<<24,60,13,0>>,<<24,60,13,0>>,<<24,60,13,0>>,<<25,60,13,0>>,<<28,60,13,0>>,<<28,60,13,0>>,<<34,16,13,0>>,<<31,16,60,0>>,<<31,16,13,0>>,<<10,16,13,0>>,<<10,16,13,0>>,<<10,16,13,0>>,<<10,16,13,0>>,<<10,16,60,0>>,<<10,16,60,0>>,<<28,16,60,0>>,<<34,16,60,0>>,<<34,16,60,0>>,<<34,16,60,0>>,<<31,16,60,0>>,<<31,16,60,0>>,<<31,16,60,0>>,<<31,16,60,0>>,<<19,37,60,0>>>>>>
\* cost of the symbols in 1/2048 of a bit, as counted by the rate loop
SpecBits == <<
  <<20480,20480,5220,9042,20480,20480,6619,9892,5289,6619,9105,11629,8982,9892,11629,13677,4977>>,
  <<11940,10854,12109,13677,10742,9812,11090,12288,11348,10240,11348,12683,12109,10854,11629,12902,1197>>,
  <<7886,7120,8982,10970,7496,6815,8334,10150,9437,8535,9656,11216,11348,10431,11348,12479,4051>>,
  <<5485,6099,9168,11940,6311,6262,8640,11090,9233,8640,10334,12479,11781,11090,12479,13988,6009>>,
  <<7886,7804,10150,11940,7886,7685,9368,10854,10061,9300,10431,11629,11629,10742,11485,12479,2763>>,
  <<9042,8383,10240,11781,8483,8013,9437,10742,10334,9437,10431,11485,11781,10742,11485,12288,2346>>,
  <<5922,6619,9368,11940,6566,6539,8750,10970,9168,8640,10240,12109,11485,10742,11940,13396,5009>>,
  <<12288,11090,11348,12109,11090,9892,10334,10970,11629,10431,10970,11629,12479,11348,11781,12288,1289>>,
  <<1685,5676,13138,18432,5598,7804,13677,18432,12683,13396,17234,20480,17234,17234,20480,20480,15725>>,
  <<2793,5072,10970,15725,5204,6487,11216,15186,10970,11216,14336,17234,15186,15186,17234,18432,12109>>,
  <<12902,11485,11940,13396,11629,10531,11348,12479,12683,11629,12288,13138,13677,12683,13138,13677,854>>,
  <<3821,5088,9812,13988,5289,5901,9812,13677,9976,9892,12479,15186,13988,13677,15186,17234,9812>>,
  <<4856,5412,9168,12902,5598,5736,8863,12288,9368,8982,11090,13677,12902,12288,13677,15725,8147>>,
  <<20480,20480,7088,9300,20480,20480,7844,9733,7320,7928,9368,10970,9581,9892,10970,12288,2550>>,
  <<6031,5859,8192,10635,6410,6286,8433,10742,9656,9042,10531,12479,12479,11629,12902,14336,5756>>,
  <<6144,6215,8982,11940,6262,6009,8433,11216,8982,8433,10240,12479,11781,11090,12479,13988,5817>>,
  <<20480,20480,11216,12109,20480,20480,11216,11940,11629,11485,11940,12479,12479,12109,12683,13138,704>>,
  <<7928,6994,8239,9733,7218,6539,8147,9892,9812,9105,10240,11629,12109,11216,12109,13138,4167>>,
  <<8640,7724,9233,10970,8013,7185,8483,10150,9656,8694,9656,10970,11348,10334,11090,12288,3391>>,
  <<20480,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,18432,91>>,
  <<10061,8863,9733,11090,8982,7970,8806,9976,10061,9105,9812,10742,11485,10334,10970,11781,2557>>,
  <<10431,9368,10240,11348,9368,8433,9233,10334,10431,9437,10061,10970,11781,10635,11216,11940,2119>>,
  <<13988,12479,12683,12902,12683,11348,11485,11940,12902,11629,11940,12288,13396,12109,12479,12683,828>>,
  <<10431,9300,10334,11629,9508,8483,9437,10635,10635,9656,10431,11348,11940,10854,11485,12288,1946>>,
  <<12479,11216,11629,12479,11348,10150,10635,11348,11940,10854,11216,11940,12902,11629,11940,12479,1146>>,
  <<13396,12109,12288,12902,12109,10854,11216,11781,12479,11348,11629,12109,13138,11940,12288,12683,928>>,
  <<2443,5289,11629,16384,5170,6730,11940,16384,11216,11629,14731,18432,15725,15725,18432,20480,13396>>,
  <<3328,5009,10531,15186,5040,6031,10531,14731,10431,10431,13396,16384,15186,14731,16384,18432,11629>>,
  <<14336,12902,12902,13396,12902,11629,11940,12288,13138,12109,12288,12902,13677,12683,12902,13138,711>>,
  <<4300,5204,9437,13396,5430,5776,9300,12902,9656,9437,11781,14731,13396,12902,14731,16384,8982>>,
  <<5394,5776,8982,12288,5922,5901,8640,11629,9105,8694,10635,13138,12288,11629,13138,14731,6844>>,
  <<17234,15725,15725,15725,15725,14731,14731,14731,16384,14731,14731,15186,16384,15186,15186,15186,272>>,
  <<6461,6286,8806,11348,6566,6215,8334,10742,9233,8535,10061,12109,11781,10970,12109,13677,5394>>,
  <<6674,6487,8863,11485,6702,6286,8334,10635,9168,8483,9976,11940,11629,10854,11940,13396,5105>>,
  <<15186,13677,13677,13988,13677,12479,12479,12683,13988,12683,12902,13138,14336,13138,13396,13677,565>>,
  <<7844,7252,8922,10854,7389,6815,8383,10240,9508,8750,9892,11485,11629,10742,11629,12902,3842>>,
  <<9233,8239,9233,10431,8334,7424,8483,9892,10061,9105,10061,11216,11781,10742,11485,12479,2906>>,
  <<20480,20480,14731,14731,20480,20480,14336,14336,15186,14336,14731,14731,15186,14731,14731,15186,266>>,
  <<10531,9300,9976,11090,9437,8286,9042,10061,10431,9368,9976,10854,11781,10531,11090,11781,2233>>,
  <<11629,10334,10970,12109,10431,9368,10061,10970,11348,10240,10854,11485,12288,11216,11629,12288,1469>>,
  <<952,6787,15725,20480,6646,9733,16384,20480,14731,15725,18432,20480,18432,20480,20480,20480,18432>>,
  <<9437,8806,10742,12288,8982,8483,9892,11216,10742,9892,10854,11940,12109,11090,11781,12683,1891>>,
  <<12902,11629,11940,12479,11781,10531,10854,11485,12109,10970,11348,11940,12902,11781,12109,12479,1054>>,
  <<2113,5323,11781,16384,5579,7252,12288,16384,11781,12288,15186,18432,15725,16384,18432,20480,12902>>,
  <<2463,5965,11348,15186,5522,6934,11216,14731,10334,10635,13677,16384,13988,13988,15725,18432,10334>>,
  <<3779,5541,9812,13677,5467,6122,9656,13138,9581,9437,11940,14731,13138,12683,14336,16384,8982>>,
  <<3181,5154,10150,14336,5448,6311,10334,13988,10334,10431,13138,15725,14336,13988,15725,18432,10431>>,
  <<4841,5560,9105,12479,5756,5944,8922,12109,9300,8982,11090,13677,12479,12109,13677,15186,7460>>,
  <<5859,6009,8922,11940,6144,5987,8483,11348,9042,8535,10334,12683,11940,11216,12683,14336,6215>>,
  <<4250,4916,8587,12109,5901,6191,9233,12288,10150,9892,11940,14336,13677,13138,14731,16384,8383>>,
  <<7153,6702,8863,11216,6904,6410,8239,10431,9233,8433,9812,11629,11629,10742,11781,13138,4753>>,
  <<6674,7057,9508,11629,7120,6964,8806,10635,9437,8750,10061,11629,11485,10531,11485,12683,4062>>,
  <<5341,5289,8013,10970,6311,6262,8640,11090,10061,9508,11090,13138,12902,12288,13396,15186,6539>>,
  <<8057,7533,9300,11216,7685,7057,8535,10334,9508,8694,9812,11216,11485,10431,11348,12479,3541>>,
  <<9168,8239,9656,11216,8483,7608,8806,10240,9892,8982,9812,11090,11485,10431,11090,12109,2815>>,
  <<558,7928,18432,20480,7724,12288,20480,20480,18432,20480,20480,20480,20480,20480,20480,20480,20480>>,
  <<9892,8806,9976,11348,9042,8057,9042,10240,10240,9233,9976,11090,11629,10531,11216,12109,2371>>,
  <<11090,9812,10531,11629,9976,8863,9508,10531,10854,9733,10334,11090,11940,10742,11216,11940,1821>>,
  <<7354,6964,9042,11216,7153,6592,8334,10431,9233,8483,9812,11485,11485,10531,11629,12902,4349>>,
  <<11348,10150,10742,11629,10150,9042,9656,10431,10854,9812,10431,11216,12109,10970,11485,12109,1700>>,
  <<20480,20480,8694,10150,20480,20480,8982,10240,8982,9105,9976,10970,10431,10431,11090,11940,1610>>,
  <<9233,8192,9368,10970,8286,7496,8587,9976,9812,8863,9733,10854,11348,10334,11090,11940,3040>>,
  <<4202,5716,9733,13138,5598,6099,9437,12683,9300,9168,11485,13988,12479,12109,13988,15725,7804>>,
  <<4400,5965,9508,12479,6009,6360,9105,11781,9300,8982,10970,13138,12109,11629,13138,14731,6994>>>>
TnsOrderBits == <<
  <<17234,13988,11216,8694,6566,4977,3961,3040>>,
  <<12683,9437,6874,5541,5121,5170,5359,5056>>>>
TnsCoefBits == <<
  <<20480,15725,12479,10334,8694,7320,6964,6335,5504,5637,6566,6758,8433,11348,15186,20480,20480>>,
  <<20480,20480,20480,20480,12902,9368,7057,5901,5254,5485,5598,6076,7608,10742,15186,20480,20480>>,
  <<20480,20480,20480,20480,13988,9368,6702,4841,4585,4682,5859,7764,12109,20480,20480,20480,20480>>,
  <<20480,20480,20480,20480,18432,13396,8982,4767,3779,3658,6335,9656,13988,20480,20480,20480,20480>>,
  <<20480,20480,20480,20480,20480,14731,9437,4275,3249,3493,8483,13988,17234,20480,20480,20480,20480>>,
  <<20480,20480,20480,20480,20480,20480,12902,4753,3040,2953,9105,15725,20480,20480,20480,20480,20480>>,
  <<20480,20480,20480,20480,20480,20480,12902,3821,3346,3000,12109,20480,20480,20480,20480,20480,20480>>,
  <<20480,20480,20480,20480,20480,20480,15725,3658,20480,1201,10854,18432,20480,20480,20480,20480,20480>>>>
=============================================================================
