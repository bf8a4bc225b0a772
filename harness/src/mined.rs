//! Generated by refmodel/examples/mine.rs from 6000000 candidates.
use crate::gen::unhex;
pub const MINED: &[&str] = &[
    // longest single run
    "e9e9fe3f4e5765d464a668c98d427201bdb731e6c2c28919914deaa0bda339e0", // 558
    "427e3e18bb162ef328f65b3316cb48e3d67a880789dc201d0deb9ada0be53f25", // 555
    "5efef7e505949c2e7d180613c3be821cce3db117d30d1d9a7721b3d7b9b00628", // 555
    "038638bde95c0b177d7f30210efcbec4c4de5e838fcf286fc257998cc0d67f9c", // 555
    "32037ec3f747f663f0e49af5ab62287ee298ecc49ae9596d565dc32da9678c87", // 549
    "fa15e41e83425e5963367430eb031944b86934518c0769f6fa070cfbee691fc8", // 549
    "46783a32b821223ea36b09562e63687008ef84dbbe682ad1a0ccb975c5a4af9f", // 549
    "660cc432f5047388c53caf9cdcaa999eeeab0b0d353386d078a7b0c73ff399d0", // 549
    "79c3613719ff7b8a43be987f1b296b3ded203ca1bd6ca9aa51934dc3dd570555", // 546
    "3d7da11101168a98a6133215c0c4242c469849126e618f5dd1a4b50c3b0818ed", // 546
    "d79b374d106e5bff3134f814fc2c617f59a3d9d53a7478204d350eba1843eca3", // 546
    "a748aa78be67a9782b03179b50929cfa39e0e8fe91c69cd4935ea2eec638e9c3", // 546
    // shortest single run
    "bef3e40fe6cd74e14cfeeea897299782dc577d8de69733350f598e854d1a2106", // 9585
    "84f61467578edce5d9dfd51d54c8ab939915570d6fd843c065f7fe5226692d49", // 9585
    "44780b5c01dbff6309a9deed6a2c370bdab1ee9358c8fdb89c5e603af65970a3", // 9585
    "3c589606a767abcad3b30beff33cb9ee962ca6dfcdc93e90a7b8ac1abb7fa6ad", // 9585
    "f29f325ac7d99f2d7f08d620c79ed4f1614dd57647bbcc219af74b0157642e73", // 9585
    "17fd6225cfe5c3b5ad1adb375c092d7f2de3da964b9b97a8f0403e0090bd0018", // 9582
    "38aacb87671131441de78207236c56909fe84415763813729e5a29897e65ceca", // 9582
    "b0d98a1bbc2dd7f7bd722579d2b4c8f5bd25d684a29b6a3c7331da2aa4c247eb", // 9582
    "5cf291d7e3af5fd264b6bd0538db44a5877b26a325b59de6647135dff07ed5f2", // 9582
    "8379f34122319da85aed0d435706aba072431c3ceb27e5618dd873bbe6819c5e", // 9582
    "6c418c628c8f6b03c4ba4e07322bd62528061c95b9234f5bacd53e715ed02a2e", // 9582
    "c7dc785f97e75a3cca266f3311e5b2b7622c60828cb8d736e6478f07a73f3302", // 9579
    // most candidates at q-1 or q
    "1959c82ea4c4b1d447f6dfe91fbe897630b37a5767b797b1016515b291f9493e", // 8
    "ac218bb7f45de9b2d4563ffba0c5eb946d2ddf89264f12c07ffdca84b5cca264", // 7
    "d88c55f21c7f2093d73c148ec982ad317ee1ecb545acf448c152d2e535bc3be6", // 7
    "f8fb06a448b6596bd9dc07658cfb1de4fbb24b704857e283ba5466cc44ca7c8b", // 7
    "af01e8917b75021b84f9688233d0eb992dac5d02f1083664b7798ba2d9b2c9d4", // 7
    "a282063f4e162ccd808c16415a7a0a4d50255c63094c72ab4b54dffdbe7de69b", // 7
    "aa88115fedd8ab682e7b990dacc3e4dd6919316991009da51b555cc73eb4c58b", // 7
    "af99673fc419ba0b709a2a0557061bde28a57aad883442f3976cf5e8805853fc", // 7
    "1972f7964bd668fceea47dc5d4d5ffe7d46ad1f40fc41ac18022ab70322f1f1c", // 7
    "de63a87567f886a117d129c42713a5ee9895a274e8003fc2b284e52f773ce905", // 7
    "664cf7769d5d4d580a691f4db8f028db879c0b8a47269d7e4ffe3e5bc13bd733", // 7
    "4f0126b16d3658e3a9c2e140df4300bbe39224adf08caee4963c7a70a908a391", // 7
    // longest total
    "035346d7cf385a0b836e5d76b654075bf471692d9ea0eebac9392b0251403125", // 2040
    "c56683118a109c94eceb110e8058c46b68999539380f36e79bcaeedb22d311d0", // 2031
    "fcdc22b0aa59897cafcd8da33746cd15b870abf70bf5abe1299a5ec34930f869", // 2028
    "abcb821f9e6564074dbb69403ee1f9510b21e316d2238bd2775f8ee33cdfabf3", // 2028
    "ca3a8907072eca727694219343dfafccf25cbce331cb1072917878257d1d6bb0", // 2028
    "15b0a9127e10e6fcb896c29da99497676f9640bd070358e59ffac266c8eed4b3", // 2025
    "ffc178b8004fc9a1873fd3556748823b425127c12aa99539397b68a7202dbe6d", // 2025
    "459a3508343efc3f4260196ebb94a5da8d6443667690116b7cda18904c2625d4", // 2025
    "2adddd9f219845e625d212504645a68a163307052baca6a32032801480efaf60", // 2025
    "7fd16129b7740c691d80847f924fdcf76c582b41221417417253a9d7b0580a9d", // 2022
    "189a83e26ddb6ed7ca8c24c415906ed19208e8a0c1e432dc5f8f56c7d10b2d1b", // 2022
    "3a1d2d9e78caaafad6db773998f6c60b11a60c7d1d62e423cf2ca7f131646106", // 2019
    // runs ending at a block boundary
    "fc11bfd55f996f10a65defc7923c6a3fff06fa1c0842169d80ccc66131c9e15f", // 3
    "97b1dc3363261ca6bbf03d0830a57f40473f6a1d7e01cd6e1ef872019932a60b", // 3
    "f48be0d660c935c88836dc22ee0041244b69d8f00df93362fea2f0f6b60406ab", // 3
    "6747cc6c60bbea9195a6c2ae3615daf93bed4d8c4868c6359411b4788535e589", // 3
    "600f021026aaaa6ef6951e26963802567c54c16910e9a902c26bdfb2e9278f74", // 3
    "26914ea544df238c797bb886f1c1cc231116f3597adc018e0d45a93165b845c8", // 3
    "a7780cdbc301b32bee763a2935b32f2d7c6ed339682c68a3eeb15cb658fe0b7b", // 3
    "fa53aa9b183bf7e89976ba6aeead02be92fd7ac4fb7485548804d12656312051", // 3
    "9b2bdab41f5b30dbdc4212ab7e908ea45223ca0e2859e1040c3c335853100779", // 3
    "4e7b7ac9a3be814d31bf13b22b8edbcf8ef33095f76f0453bb8770450ac83ec8", // 3
    "b88e4b6494c09aa81aa5a34f7eb41dc17cb523f54e0a462390af6aead58a7bfd", // 3
    "821336fddbd5af54b25edf3f1d24eff4af42e4dff0563a0e7671b80111139b1b", // 3
];
pub fn rho(i: usize) -> [u8; 32] {
    unhex(MINED[i % MINED.len()]).try_into().unwrap()
}
