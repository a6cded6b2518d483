package main

// Keys whose 64-bit FNV-1 hashes agree in the low `bits` bits and differ in
// bit `bits`, found by a birthday search: the hash trie consumes six bits per
// level from the low end, so they part only at its deepest levels.
var deepPairs = []struct {
	bits int
	a, b string
}{
	{61, "01d1efae7fcefb6430", "19e3a8fd68309ed2a6"},
	{59, "8f445a617123efd222", "683a19e589c4d1428f"},
	{59, "841190723f85ae9cca", "adffc72956b70ec276"},
	{59, "83d58fa59aef69e85f", "4930436aabcbe66d76"},
	{59, "2fdae9b1397219086c", "41618b540daf347428"},
	{58, "d17c772d2e3a3a89dd", "5e47d565ab008f1b51"},
	{58, "cdbf5a2e61acf42400", "a965ea337bc6121443"},
	{58, "a9ac148057604846cd", "7a0a81c9044d6f60a3"},
	{58, "99bae66561ec293934", "46091d5cb4a374b28e"},
	{58, "987d320764e0f442ab", "b8f1ea67d32bfc24cf"},
	{58, "7d569be3b3de8a9cdf", "f078b3d970f5d08b9b"},
	{58, "71f608ab56bde45c7e", "c849274ba55f5f0a1d"},
	{58, "710739c95bc1eadabf", "733ab471c8f17d3bac"},
	{58, "6f0e00ef15e4fd1895", "bd7ea57fb1517de849"},
	{58, "4bd2d12e78a817d820", "019747e526b33b5f58"},
	{57, "d32bf67eda3ce2d77e", "ccdc6e14b3f6f524a7"},
	{57, "c3975ab6e065ce846e", "e8614a7cfe4f9a7011"},
	{57, "8f2f27a480c28b253e", "8be12aa8cd88f0855d"},
	{57, "0ab09a0a97f6638778", "15f3b10588aa75a503"},
	{56, "d648d468cdff608c1b", "ffe91ae74a65062730"},
	{56, "3d9e733381d9db064b", "3753ee9433226e1515"},
	{56, "327fbc93517540040d", "9ca41da5e7b0aa6f5b"},
	{56, "082c948d772a3dd7af", "515619f8a689e7f6db"},
	{55, "f58f521d0e0d411fe1", "61c65c5dfc6e838c50"},
	{55, "b10de7cbf45765e734", "df58ff7f17ae66c8f3"},
	{55, "5d73aec4c93aa1838c", "9378029f5c913b5ec7"},
	{55, "0cb1c574b7cf79e814", "a0603a5729ef2d4cb7"},
	{54, "f8885e8b9a0c78686c", "3d0ee31bfcb67b9881"},
	{54, "f24cdd1ec513538f8a", "68abf89e22a92d87c7"},
	{54, "b3ee025fc6eeefa7ed", "682603804fce921249"},
	{54, "3a02a99a1f1df8ce68", "1005e32bd47337a02a"},
	{53, "40ab2a147837bb3ade", "4363c2079617a8ba7d"},
	{52, "6dc03d1634c8eb8f45", "9cb98c42a8fff77f03"},
	{51, "1ecb90ce4371bfeaa9", "135aec58c0a0bbcbc6"},
	{50, "25cd1420a8bb1372ef", "922c7050165ab8ce61"},
	{49, "0eb0135cf825580057", "ce475596010a4cb905"},
	{48, "26525d289d5c0bb9e5", "1acec0bbbedc19faa5"},
}

// The same for suffixes of a prefix whose own hash is zero (zeroKey followed by
// any number of NUL bytes): with them a pair becomes two groups of keys, each
// group sharing all 64 bits.
var zeroPairs = []struct {
	bits int
	a, b string
}{
	{61, "c9de1b989ae783e64c", "fa6fa3d5770f661172"},
	{61, "b6c05104521e85eff1", "05b8f3f1c55c60f989"},
	{60, "b3019e81b6c3a46282", "73668c51f480e5deab"},
	{60, "8757000fab295045ea", "3148f076d38eeee0ea"},
	{59, "7f25a8318862614111", "4dfdabf5e4e99a8d2a"},
	{58, "ae8d0bf5c68f2a3608", "33e2b1c5fb6e375a61"},
	{58, "a237c5772d944e10a2", "47e995f1a058814217"},
	{58, "3ef002494c389b5a04", "526a9990156486deea"},
	{57, "95d64dc186533a7a94", "249b78120f0e1ece5c"},
	{57, "7536dffee2bda2e716", "204d22419642a1e27b"},
	{57, "628f1b07353c9a6e96", "6cadbf6fdfb2a23fb1"},
	{57, "2e23cc164407816b02", "7c635edeac25b4a133"},
	{56, "cfc1d484989f05563c", "1fc674b0ec36c62487"},
	{56, "c500214e4c42c4f680", "2aca34e902213c73ed"},
	{56, "72f289ee26335d8437", "7b50f97d565baa7191"},
	{56, "131608c17da16e92e6", "87b9c6b8b8aaaeafa9"},
	{55, "eaa9d8b533188326f6", "35fc337e912bd82159"},
	{55, "dfe878791bed8c5248", "b7e4b60d9d6572178d"},
	{55, "ce29a20071dcd35d94", "bdac63ed5cd159df20"},
	{55, "06f93fff0b5288d5a3", "8d7a7bdb9867ef797e"},
	{54, "fc88bf60288b9e8446", "510342fccf172dcf2e"},
	{54, "b067533290f76f4f79", "ca5826c950aac59638"},
	{54, "3d33f4eba4a784ff03", "b88916457fa221f890"},
	{54, "39a8818096400e6d4d", "c987cbce52bba19976"},
}

var zeroKey = []byte{0x92, 0x06, 0x77, 0x4c, 0xe0, 0x2f, 0x89, 0x2a, 0xd2}
