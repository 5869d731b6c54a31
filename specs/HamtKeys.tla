------------------------------ MODULE HamtKeys ------------------------------
(* The driver's byte strings by number: the 64-bit FNV-1 hash of each, six bits at
   a time from the lowest. *)
Chunks == <<
  <<4, 55, 26, 55, 46, 63, 29, 17, 56, 35, 7>>,
  <<4, 55, 26, 55, 46, 63, 29, 17, 56, 35, 7>>,
  <<4, 55, 26, 55, 46, 63, 29, 17, 56, 35, 7>>,
  <<4, 55, 26, 55, 46, 63, 29, 17, 56, 35, 7>>,
  <<4, 55, 26, 55, 46, 63, 29, 17, 56, 35, 7>>,
  <<4, 55, 26, 55, 46, 63, 29, 17, 56, 35, 7>>,
  <<4, 55, 26, 55, 46, 63, 29, 17, 56, 35, 7>>,
  <<4, 55, 26, 55, 46, 63, 29, 17, 56, 35, 7>>,
  <<59, 8, 18, 62, 53, 56, 28, 23, 56, 49, 12>>,
  <<59, 8, 18, 62, 53, 56, 28, 23, 56, 49, 13>>,
  <<34, 37, 16, 6, 58, 53, 20, 25, 35, 12, 1>>,
  <<34, 37, 16, 6, 58, 53, 20, 25, 35, 1, 5>>,
  <<37, 52, 17, 41, 55, 8, 16, 34, 23, 9, 12>>,
  <<37, 52, 17, 41, 55, 8, 16, 34, 48, 25, 11>>,
  <<48, 46, 11, 32, 48, 39, 29, 44, 22, 28, 6>>,
  <<48, 46, 11, 32, 48, 39, 29, 50, 58, 8, 0>>,
  <<16, 12, 8, 36, 18, 34, 30, 28, 44, 39, 7>>,
  <<16, 12, 8, 36, 18, 34, 21, 61, 42, 45, 13>>,
  <<34, 9, 54, 40, 45, 21, 0, 17, 30, 42, 13>>,
  <<34, 9, 54, 40, 45, 6, 41, 38, 26, 59, 10>>,
  <<16, 36, 31, 26, 51, 61, 4, 14, 9, 31, 12>>,
  <<16, 36, 31, 26, 56, 61, 42, 31, 23, 53, 15>>,
  <<60, 0, 0, 21, 45, 51, 17, 59, 60, 28, 10>>,
  <<60, 0, 0, 36, 19, 0, 60, 11, 0, 57, 12>>,
  <<60, 11, 6, 21, 13, 9, 20, 62, 43, 41, 3>>,
  <<60, 11, 6, 21, 13, 9, 20, 62, 43, 41, 11>>,
  <<60, 11, 6, 21, 13, 9, 20, 62, 43, 41, 3>>,
  <<60, 11, 6, 21, 13, 9, 20, 62, 43, 41, 11>>,
  <<37, 12, 34, 8, 4, 18, 14, 39, 50, 47, 12>>,
  <<54, 55, 13, 28, 10, 59, 39, 40, 54, 32, 13>>,
  <<55, 55, 13, 28, 10, 59, 39, 40, 54, 32, 13>>,
  <<52, 55, 13, 28, 10, 59, 39, 40, 54, 32, 13>>,
  <<53, 55, 13, 28, 10, 59, 39, 40, 54, 32, 13>>,
  <<50, 55, 13, 28, 10, 59, 39, 40, 54, 32, 13>>,
  <<51, 55, 13, 28, 10, 59, 39, 40, 54, 32, 13>>,
  <<48, 55, 13, 28, 10, 59, 39, 40, 54, 32, 13>>,
  <<49, 55, 13, 28, 10, 59, 39, 40, 54, 32, 13>>,
  <<62, 55, 13, 28, 10, 59, 39, 40, 54, 32, 13>>,
  <<63, 55, 13, 28, 10, 59, 39, 40, 54, 32, 13>>,
  <<5, 42, 18, 50, 61, 7, 7, 5, 52, 22, 13>>,
  <<4, 42, 18, 50, 61, 7, 7, 5, 52, 22, 13>>,
  <<7, 42, 18, 50, 61, 7, 7, 5, 52, 22, 13>>,
  <<6, 42, 18, 50, 61, 7, 7, 5, 52, 22, 13>>,
  <<1, 42, 18, 50, 61, 7, 7, 5, 52, 22, 13>>,
  <<0, 42, 18, 50, 61, 7, 7, 5, 52, 22, 13>>,
  <<3, 42, 18, 50, 61, 7, 7, 5, 52, 22, 13>>,
  <<2, 42, 18, 50, 61, 7, 7, 5, 52, 22, 13>>,
  <<13, 42, 18, 50, 61, 7, 7, 5, 52, 22, 13>>,
  <<12, 42, 18, 50, 61, 7, 7, 5, 52, 22, 13>>,
  <<44, 22, 18, 50, 61, 7, 23, 4, 52, 22, 13>>,
  <<45, 22, 18, 50, 61, 7, 23, 4, 52, 22, 13>>,
  <<46, 22, 18, 50, 61, 7, 23, 4, 52, 22, 13>>,
  <<47, 22, 18, 50, 61, 7, 23, 4, 52, 22, 13>>,
  <<40, 22, 18, 50, 61, 7, 23, 4, 52, 22, 13>>,
  <<41, 22, 18, 50, 61, 7, 23, 4, 52, 22, 13>>,
  <<42, 22, 18, 50, 61, 7, 23, 4, 52, 22, 13>>,
  <<43, 22, 18, 50, 61, 7, 23, 4, 52, 22, 13>>,
  <<36, 22, 18, 50, 61, 7, 23, 4, 52, 22, 13>>,
  <<37, 22, 18, 50, 61, 7, 23, 4, 52, 22, 13>>,
  <<63, 29, 18, 50, 61, 7, 39, 4, 52, 22, 13>>,
  <<62, 29, 18, 50, 61, 7, 39, 4, 52, 22, 13>>,
  <<61, 29, 18, 50, 61, 7, 39, 4, 52, 22, 13>>,
  <<60, 29, 18, 50, 61, 7, 39, 4, 52, 22, 13>>,
  <<59, 29, 18, 50, 61, 7, 39, 4, 52, 22, 13>>,
  <<58, 29, 18, 50, 61, 7, 39, 4, 52, 22, 13>>,
  <<57, 29, 18, 50, 61, 7, 39, 4, 52, 22, 13>>,
  <<56, 29, 18, 50, 61, 7, 39, 4, 52, 22, 13>>,
  <<55, 29, 18, 50, 61, 7, 39, 4, 52, 22, 13>>,
  <<54, 29, 18, 50, 61, 7, 39, 4, 52, 22, 13>>
>>
=============================================================================
