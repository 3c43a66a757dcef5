----------------------------- MODULE MarkupIds -----------------------------
(* Generated by tools/gen_ids.py: the identifiers by which markup names the *)
(* property values, as documented in README.rst, in code points.            *)
EXTENDS Words

MarkupId == <<
  <<<<1080, 1084>>, <<1088, 1076>>, <<1076, 1090>>, <<1074, 1085>>, <<1090, 1074>>, <<1087, 1088>>>>,
  <<<<1086, 1076>>, <<1085, 1086>>>>,
  <<<<1077, 1076>>, <<1084, 1085>>>>,
  <<<<1084, 1088>>, <<1089, 1088>>, <<1078, 1088>>>>,
  <<<<1080, 1085, 1092>>, <<1080, 1079, 1098, 1103, 1074>>, <<1087, 1086, 1074>>>>,
  <<<<1087, 1088, 1096>>, <<1085, 1089, 1090>>, <<1073, 1091, 1076>>>>,
  <<<<49, 1083>>, <<50, 1083>>, <<51, 1083>>>>,
  <<<<1085, 1077, 1089, 1086, 1074>>, <<1089, 1086, 1074>>>>,
  <<<<1082, 1072, 1095>>, <<1086, 1090, 1085>>, <<1087, 1088, 1080, 1090>>>>,
  <<<<1087, 1086, 1083>>, <<1089, 1088, 1072, 1074, 1085>>, <<1087, 1088, 1077, 1074>>>>,
  <<<<1083, 1080, 1095, 1085>>, <<1074, 1086, 1079, 1074, 1088>>, <<1087, 1088, 1080, 1090, 1103, 1078>>, <<1074, 1086, 1087, 1088>>, <<1086, 1090, 1085, 1086, 1089>>, <<1091, 1082, 1072, 1079, 1072, 1090>>, <<1086, 1087, 1088, 1077, 1076>>, <<1086, 1090, 1088, 1080, 1094>>, <<1085, 1077, 1086, 1087, 1088>>, <<1074, 1079, 1072, 1080, 1084, 1085>>>>,
  <<<<1089, 1090, 1088, 1086, 1095>>, <<1079, 1072, 1075, 1083>>>>,
  <<<<1089, 1091, 1097>>, <<1087, 1088, 1080, 1083>>, <<1084, 1077, 1089, 1090>>, <<1075, 1083>>, <<1087, 1088, 1080, 1095>>, <<1094, 1077, 1083, 1086, 1077>>, <<1090, 1077, 1082, 1089, 1090>>, <<1087, 1088, 1077, 1076, 1083>>>>,
  <<<<1094, 1086>>, <<1094, 1076>>, <<1094, 1089, 1076>>, <<1094, 1086, 1089, 1090>>, <<1094, 1084, 1084>>>>,
  <<<<1087, 1088, 1103, 1084>>, <<1074, 1079, 1074>>>>,
  <<<<1086, 1089, 1085>>, <<1072, 1083, 1090>>, <<1089, 1087, 1094>>>>,
  <<<<1087, 1086, 1083, 1085, 1087, 1088, 1080, 1083>>, <<1082, 1088, 1087, 1088, 1080, 1083>>>>,
  <<<<1087, 1086, 1083, 1085, 1087, 1088, 1080, 1095>>, <<1082, 1088, 1087, 1088, 1080, 1095>>>>,
  <<<<1085, 1089>>, <<1089, 1095, 1090>>>>,
  <<<<1087, 1079, 1074>>, <<1089, 1079, 1074>>>>
>>
=============================================================================
