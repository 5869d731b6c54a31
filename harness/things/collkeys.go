package things

// Byte strings whose FNV-1 64-bit hashes agree: fully (full, mix come in fully
// colliding pairs whose two hashes differ only above bit 60), or in the low N bits.
var PrefKeys = []string{"5777a70204d1d223", "1f45bb0b1a2167b9", "ef7cdb091d73fb91"} // hashes divisible by 2^56

var CollKeys = []struct{ Class, Hex string }{
	{"full", "dc759ae1560455000062d3864c54246d0000e23f9210c3deba0000"},
	{"full", "dc759ae1560455000062d3864c54246d0000ea02e36f234ea2009b"},
	{"full", "dc759ae15604550000e51ab58dd28a45006ce23f9210c3deba0000"},
	{"full", "dc759ae15604550000e51ab58dd28a45006cea02e36f234ea2009b"},
	{"full", "1d129c890b5739008a62d3864c54246d0000e23f9210c3deba0000"},
	{"full", "1d129c890b5739008a62d3864c54246d0000ea02e36f234ea2009b"},
	{"full", "1d129c890b5739008ae51ab58dd28a45006ce23f9210c3deba0000"},
	{"full", "1d129c890b5739008ae51ab58dd28a45006cea02e36f234ea2009b"},
	{"low60", "3c16c3290ecceb030000"},
	{"low60", "3c39013823a58d01008e"},
	{"low54", "36cbcce71a0936000000"},
	{"low54", "36f11c93d73b080000d9"},
	{"low48", "30c6b4eea63a00000000"},
	{"low48", "30a9e1f60c1d00000065"},
	{"low42", "2a94dbec560000000000"},
	{"low42", "2a63b3eeac0300000064"},
	{"low36", "242088380b0000000000"},
	{"low36", "2495284f010000000028"},
	{"low30", "1ef0930c000000000000"},
	{"low30", "1e5fce1900000000008d"},
	{"low24", "1840af00000000000000"},
	{"low24", "181de1000000000000e3"},
	{"low18", "127a0300000000000000"},
	{"low18", "12f903000000000000af"},
	{"mix", "dc759ae1560455000062d3864c54246d0000e23f9210c3deba00007863842acfe40c0000"},
	{"mix", "dc759ae1560455000062d3864c54246d0000e23f9210c3deba00007636dfa2ea550d0031"},
	{"mix", "dc759ae1560455000062d3864c54246d0000ea02e36f234ea2009b7863842acfe40c0000"},
	{"mix", "dc759ae1560455000062d3864c54246d0000ea02e36f234ea2009b7636dfa2ea550d0031"},
}

// Pairs whose hashes agree in the named bits only.
var PartKeys = []string{
	"4600b4a48065f0e3", "552c8a0258bc0473", // low6high32
	"abe8fa36eb62445c", "f94bb2a2445e7a76", // low6high32
	"1f62555815e83f3f", "b1898defdeeb885a", // low12high40
	"0ef2375a5ed11f3c", "6e697ec4af5ddbd9", // low6mid32
	"c91a7144ad66d7c5", "67ea4ebb4ce49cad", // low6mid32
	"d3667114285acf3d", "1a22648fd9df926f", // low32high16
	"40cbbe4423b0e202", "9a0e5567ca83c8ed", // low32high16
	"4d1fce027acbd0d1", "162438a3d041612f", // low16high32
	"77515820f04674cc", "a6828b8617620446", // low16high32
	"2d1c6fd23f2199b1", "7ad8142f2d49baa7", // low32mid16
	"be365913b27e1975", "2f99e23fafbe938d", // low32mid16
	"2cf6a6079f376257", "58a08a39f4b417ce", // low48high4
}
