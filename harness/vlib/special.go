package vlib

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
)

// specialPoints lists points with unusual coordinates: zero, very small, very large, with runs of zero bits,
// short, and points which share a coordinate. Their discrete logarithms are unknown: no multiple of the
// generator which a workload would pick looks like them.
var specialPoints = map[string][][2]string{
	"secp256k1": {
		{"1", "4218f20ae6c646b363db68605822fb14264ca8d2587fdd6fbc750d587e76a7ee"},                                                                // small x
		{"2", "990418d84d45f61f60a56728f5a10317bdb3a05bda4425e3aee079f8a847a8d1"},                                                                // small x
		{"fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2c", "e994b14ea72f8c3eb95c71ef692575e775058332d7e52d0995cf8038871b67d"},  // large x
		{"fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2b", "8388ac262525b7de2bd945ee7371c8abb12a5e88346d0bc821119723c61df32d"}, // large x
		{"300", "b9648617ddab72e48ecff42f27c3f4ea4a75d7a79178802d24d98f1c56664804"},                                                              // x low zero 8
		{"20000000000000000", "1b90b996b22e3824c3be2c45c8486b654cbf1c072eb02a389f2d57caf127960c"},                                                // x low zero 64
		{"200000000000000000000000000000000", "75bf87a4add5839bf0cae4891714e6bdd496e8bc565d835204c8152bc9d8907a"},                                // x low zero 128
		{"1000000000000000000000000000000000000000000000000", "e7a28508ef9552cbb235ac534f72d4b70c4d19b29f589d33c03c00ab367dd5a3"},                // x low zero 192
		{"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "813895a072999492f9167d4aaf1e39801e99eaae7bf007ec78fe6785c3a04da6"},   // x below 2^248
		{"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "66928580bfff98ec558bd9813169a5febbf32eb0458b7cb9420ed4aff58726c8"},     // x below 2^240
		{"ffffffffffffffffffffffffffffffff", "3db772ad92db8699ceac1a3c30e126b866c4fefe292cf0c1790e55cee8414f18"},                                 // x below 2^128
		{"fffffffffffffffe", "9aa0260fc316bfb5669fcaf1148f5195449a055f5190617d76c35d1cc6655b99"},                                                 // x below 2^64
		{"1fe1e5ef3fceb5c135ab7741333ce5a6e80d68167653f6b2b24bcbcfaaaff507", "1"},                                                                // small y
		{"cbb0deab125754f1fdb2038b0434ed9cb3fb53ab735391129994a535d925f673", "1"},                                                                // small y
		{"146d3b65add9f54ccca28533c88e2cbc63f7443e1658783ab41f8ef97c2a10b5", "1"},                                                                // small y
		{"1fe1e5ef3fceb5c135ab7741333ce5a6e80d68167653f6b2b24bcbcfaaaff507", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2e"}, // large y
		{"146d3b65add9f54ccca28533c88e2cbc63f7443e1658783ab41f8ef97c2a10b5", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2e"}, // large y
		{"cbb0deab125754f1fdb2038b0434ed9cb3fb53ab735391129994a535d925f673", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2e"}, // large y
		{"e69ec4c9eff2ec7c850f159fc1c6daa4d85c730e2fb0d2d22d38e96642c2d8ce", "10000000000000000"},                                                // y low zero
		{"3c78687e226636277e27253abb55236c66fc83ef405768a3d640033a2435b8c", "10000000000000000"},                                                 // y low zero
		{"1599b4ae2de6b021030e780c9283d3246133c4b2dc49b6a3956316651af9c7d5", "10000000000000000"},                                                // y low zero
		{"9bcc65261c708a3c656661ab0130e4589276c887193c5d2941c734a1c5a3fdc6", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},     // y short
		{"d4674bcc0cf8db1e562e25bb93e763a4a7bba9d83ce5d32762241e0ddda871e9", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},     // y short
		{"8fcc4f0dd6969aa5446b78996ae7b802c5cd8da0a9ddcfaf5c14ad4e5cb388af", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"},     // y short
		{"5b170a4ad3b77d10597b17844b8f623557749bdc8c05784dd2de82de9a654a21", "fa749692f21ff5eb6ed78f5d0960afe94bbdbb01dc14ed575e0730b3cc170c31"}, // same y
		{"78afe1fb989e8b713a14e88a02c88ef88461ac0d69b5eeaa41cbf706cd1dfc04", "fa749692f21ff5eb6ed78f5d0960afe94bbdbb01dc14ed575e0730b3cc170c31"}, // same y
		{"2c3913b993a9f77e6c6ffff1b1a80ed22429b8160a449907eb558619987cb60a", "fa749692f21ff5eb6ed78f5d0960afe94bbdbb01dc14ed575e0730b3cc170c31"}, // same y
	},
	"P-256": {
		{"0", "66485c780e2f83d72433bd5d84a06bb6541c2af31dae871728bf856a174f93f4"},                                                                // x=0
		{"5", "459243b9aa581806fe913bce99817ade11ca503c64d9a3c533415c083248fbcc"},                                                                // small x
		{"6", "36b24c2c54250ac2466985e533720047dcd102b80fe7c0e9220d5128828223cb"},                                                                // small x
		{"ffffffff00000001000000000000000000000000fffffffffffffffffffffffc", "19719bebf6aea13f25c96dfd7c71f5225d4c8fc09eb5a0ab9f39e9178e55c121"}, // large x
		{"ffffffff00000001000000000000000000000000fffffffffffffffffffffffb", "de998cb9ed8a12d7f706cf79349a0621142af47f9faba77e895e9177392eefb7"}, // large x
		{"100", "2cd2dfa4c2ebb4e8d359df375a30d5aeaea94896ed56d19c33bf6fa09cb9e4c5"},                                                              // x low zero 8
		{"10000000000000000", "10048b687675af9815297d73a7f25b1a3c42d33c64b466991a7573b4954aa0b0"},                                                // x low zero 64
		{"100000000000000000000000000000000", "4d8531d11aecbfe7bc2c6f48e2a1a3fd264a9165a891001f9b7c2d4a19d9d622"},                                // x low zero 128
		{"3000000000000000000000000000000000000000000000000", "3fb19c98d1bd64b5c42467b6e5b342c9712c20de8865d4283bfd8766e6aadc62"},                // x low zero 192
		{"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "827815b7f6f84b95af697be65523a09503ddb54e6d75203879ae58f420ff265c"},   // x below 2^248
		{"fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd", "3202c3483603191dc6f0200ef53fee0793204de95bd9ff792d3471d8cbef340c"},     // x below 2^240
		{"ffffffffffffffffffffffffffffffff", "4f2b92b4c596a5a47f8b041d2dea6043021ac77b9a80b1343ac9d778f4f8f733"},                                 // x below 2^128
		{"fffffffffffffffd", "725ac3c1daee5ca382e77309e1e11968b50fddd26d1ca3a4330f4285b1a2015d"},                                                 // x below 2^64
		{"6916fac45e568b6b9e2e2ecd611b282e5fcc40a3067d601057f879ce5a8a73cc", "1"},                                                                // small y
		{"9e78d4ef60d05f750f6636209092bc43cbdd6b47e11a9de20a9feb2a50bb96c", "1"},                                                                 // small y
		{"8d0177ebab9c6e9e10db6dd095dbac0d6375e8a97b70f611875d877f0069d2c7", "1"},                                                                // small y
		{"9e78d4ef60d05f750f6636209092bc43cbdd6b47e11a9de20a9feb2a50bb96c", "ffffffff00000001000000000000000000000000fffffffffffffffffffffffe"},  // large y
		{"6916fac45e568b6b9e2e2ecd611b282e5fcc40a3067d601057f879ce5a8a73cc", "ffffffff00000001000000000000000000000000fffffffffffffffffffffffe"}, // large y
		{"8d0177ebab9c6e9e10db6dd095dbac0d6375e8a97b70f611875d877f0069d2c7", "ffffffff00000001000000000000000000000000fffffffffffffffffffffffe"}, // large y
		{"17ae19651c135676f5d67c0ec8287f67ab71a696f0b9fd1ca3ef9d05406fc27b", "10000000000000000"},                                                // y low zero
		{"c1f7b6c35ab7d2b295ab99811ddc3ac4b4403aaa6b8944ab5772b5dc307adccc", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd"},     // y short
		{"63b1270c78279ce236a2a8fd40dd83a23fb8f1917a520c52723a20e1ec1e1202", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd"},     // y short
		{"da57222e2d20906d33b1bd81a14641990c06d3c61a24af0236532941e3671130", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd"},     // y short
		{"252b844e9e57143a4ae4d08123c85bfa711cfd21db54f361751aac8dabf06e85", "62766b80b99a09488ac71eff078ac13587dc1f70cbe509951b89f5a452c2e316"}, // same y
		{"1050e504c59198d963240af05c8e2012308a609aabbc4e8adb04649ad26088cd", "62766b80b99a09488ac71eff078ac13587dc1f70cbe509951b89f5a452c2e316"}, // same y
		{"ca8396ab9c1752ed51f7248e7fa983f35e58a24478eebe13afe0eed781af08ad", "62766b80b99a09488ac71eff078ac13587dc1f70cbe509951b89f5a452c2e316"}, // same y
	},
	"P-384": {
		{"0", "c306610fb0ae5a159cf45c06069f22a6c5eb3641c602d42dea2c4b4f75550793406d80d2b91ad54f9048bd487af1ade1"},                                                                                                // x=0
		{"2", "8cdeadbbd04911a3c1931e26df3fa6439dca9c7eb286fbd46fc319f0e2bb780232baf57825fc0c1912ada2fefe84024c"},                                                                                                // small x
		{"3", "6660041b1c7984620e8d7fd7ccdb50cc3ba816da14d41a4d8affaba8488867f0ca5a24f8d42dd7e44b530a27dc5b58da"},                                                                                                // small x
		{"fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffe", "8cdeadbbd04911a3c1931e26df3fa6439dca9c7eb286fbd46fc319f0e2bb780232baf57825fc0c1912ada2fefe84024c"}, // large x
		{"fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffc", "2de9de09a95b74e6b2c430363e1afb8dff7164987a8cfe0a0d5139250ac02f797f81092a9bdc0e09b574a8f43bf80c17"}, // large x
		{"100", "44bdec49981d9da02cade6bca27ec20f7f6503f7854eb6176d5854c3c50e8969215f76adb241570860d410f96e7c1665"},                                                                                              // x low zero 8
		{"20000000000000000", "ca7fb1aa4178581b2ec432537163a80b9d60b210db05c89c2c91c9def9057180d75bc87edf400139354b5c6419850c77"},                                                                                // x low zero 64
		{"500000000000000000000000000000000", "8ac91b18d8df50f21b22fbc4f440238453fe9405fb0024bc192b6350046b8d1652ddc3f9bb4752b9b498a512c85d2869"},                                                                // x low zero 128
		{"200000000000000000000000000000000000000000000000000000000000000000000000000000000", "fbce5f6cce914e06cbeda34109a17e0592a418209c65791ff40a228664227823ce9800e25bc12691c1dc1ac3d4326282"},                // x low zero 320
		{"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "18bd429996d762c671eeb63d0bd371f955ed736d72c68837178ad662d0767bda44f7021a172e0be984fe3297d64a092b"},   // x below 2^376
		{"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "5b8a4b631c0ad7240f803175a5f84491b54058b03ae75e47e5d40a12b284a086e814efd8a652a612d13fe03c99a170ef"},     // x below 2^368
		{"fffffffffffffffffffffffffffffffe", "e4ff1ab9d9cabde195ab5befda5b69275e51c8a1c0328caf546e206224ef69fc30fa90f4bb1b1b37de6e78a3fbf77421"},                                                                 // x below 2^128
		{"fffffffffffffffe", "dbac3b05fd1fad8cd878b20ba0f54cd97cf5adc370bff709c82d426632c0f22aecc9e0ccf9f7d50df9361a9f1abc66ab"},                                                                                 // x below 2^64
		{"c644b36c276ea16f8d3c17b3cfc85ac1658045e4d40dd81eb71c542323c01d1d5b2271bff064e8665224b0b42967b08c", "3"},                                                                                                // small y
		{"9191a271dd990a43bd7c161f39eb0da671e729aad96215af4a9b75047f5b0e964fdceef9cd468abc0fc0ba0c2da5f786", "3"},                                                                                                // small y
		{"a829aa21faf8544cb547d22cf64c97982898907052901231fe4836d85ce4d44a55009f4442548cdd9e1a9541a8f257ec", "3"},                                                                                                // small y
		{"2261b2bf605c22f2f3aef6338719b2c486388ad5240719a5257315969ef01ba27f0a104c89704773a81fdabee6ab5c78", "1"},                                                                                                // small y
		{"2261b2bf605c22f2f3aef6338719b2c486388ad5240719a5257315969ef01ba27f0a104c89704773a81fdabee6ab5c78", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffe"}, // large y
		{"26455ab1cb0ae576470b0ed5380d350405374983e5eb880622c81fd54f5fe7d2e51b21096405b6f9b29d5ef6ffcb1f4f", "10000000000000000"},                                                                                // y low zero
		{"ba980114db516a2285c187fd1c5bfbac7b4ce782bb253c1c0cf60a93cf6dc942d84e7102571f7cf8fc5113f5c15246f2", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd"},     // y short
		{"99106d61883ef1c7eb7ccd67e48a6fc2722864bf779507e47200557b341383f45c94636160f8a5d45b077981dcf790a3", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd"},     // y short
		{"ac5791899c6fa4158ec1aa9aff199491128ab3bdcd45bbff81099ff0fc7eb2c6cb1d2b9a47e7dd32a8a7728a61b62869", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffd"},     // y short
		{"360e3a4cd889eae81e50b0cd463a6c3ae026d567ee07eb544cf7951ded55ecb27f8bdfe5e6666efb8a835467683af62c", "3b13411c6ab69d5168327019ba6085618bc16cdee0eaee0ea3d28296d48c926fa06042aa90de56b891e64f4a100c5fa9"}, // same y
		{"2bfeaa106c6853d75fc37677ccfb8db86d08261b91e6b2bc0b7a2edb7d57c3d7bc811b221249f9f7f220e0ceae86dc50", "3b13411c6ab69d5168327019ba6085618bc16cdee0eaee0ea3d28296d48c926fa06042aa90de56b891e64f4a100c5fa9"}, // same y
		{"9df31ba2bb0dc14081ebd8baecca060cb2d1047c801161efa78e3c0695524f74c3f304f7074f970c835bcacae93e2d83", "3b13411c6ab69d5168327019ba6085618bc16cdee0eaee0ea3d28296d48c926fa06042aa90de56b891e64f4a100c5fa9"}, // same y
	},
}

// Specials returns the special elements of a group (with their negations) as reference points.
func (ng NamedGroup) Specials() []RPt {
	var ps []RPt
	switch r := ng.R.(type) {
	case *weier:
		for _, xy := range specialPoints[ng.Name] {
			x, y := Hex(xy[0]), Hex(xy[1])
			if !r.OnCurve(x, y) {
				Bug("special point (%s, %s) of %s", xy[0], xy[1], ng.Name)
			}
			p := RPt{V: []*big.Int{x, y}}
			ps = append(ps, p, r.Neg(p))
		}
	case *rist:
		try := func(from *big.Int, step *big.Int, n int) {
			s := Cp(from)
			for i := 0; i < 200 && n > 0; i++ {
				b := s.FillBytes(make([]byte, 32))
				for i, j := 0, 31; i < j; i, j = i+1, j-1 {
					b[i], b[j] = b[j], b[i]
				}
				if p, err := r.decode(b); err == nil {
					ps = append(ps, p, r.Neg(p))
					n--
				}
				s = Add(s, step)
			}
		}
		try(B(2), B(2), 4)
		try(Sub(r.p, B(1)), B(-2), 3)
		for _, k := range []int{8, 16, 64, 128, 192, 240, 248} {
			try(Pow2(k), Pow2(k), 2)
		}
		for _, k := range []int{16, 64, 128, 240, 248} {
			try(Sub(Pow2(k), B(2)), B(-2), 1)
		}
	case *modp:
		add := func(v *big.Int) {
			if v.Sign() > 0 && v.Cmp(r.p) < 0 && big.Jacobi(v, r.p) == 1 {
				ps = append(ps, RPt{V: []*big.Int{v}})
			}
		}
		for i := int64(1); i < 12; i++ {
			add(B(i))
			add(Sub(r.p, B(i)))
			add(Add(new(big.Int).Rsh(r.p, 1), B(i-6)))
			for _, s := range []int{8, 64, r.p.BitLen() - 8, r.p.BitLen() - 16, r.p.BitLen() - 64, r.p.BitLen() / 2} {
				if s > 0 && i < 4 {
					add(new(big.Int).Lsh(B(i), uint(s)))
					add(Sub(Pow2(s), B(i)))
				}
			}
		}
	}
	return ps
}

// Make decodes a reference point as an element of the repository's group.
func (ng NamedGroup) Make(p RPt) (group.Element, error) {
	e := ng.G.Element()
	switch r := ng.R.(type) {
	case *weier:
		if p.Inf {
			return ng.G.Identity(), nil
		}
		js, _ := json.Marshal(map[string]*big.Int{"x": p.V[0], "y": p.V[1]})
		return e, e.UnmarshalJSON(js)
	case *rist:
		return e, e.UnmarshalBinary(r.encode(p))
	case *modp:
		js, _ := json.Marshal(p.V[0])
		return e, e.UnmarshalJSON(js)
	}
	return nil, fmt.Errorf("no such group")
}
