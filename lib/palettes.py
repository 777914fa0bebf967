"""Machine palettes, restated as data: the colour of every palette index."""
PEC = [
    None, 0x0e1f7c, 0x0a55a3, 0x008777, 0x4b6baf, 0xed171f, 0xd15c00, 0x913697, 0xe49acb, 0x915fac, 0x9ed67d, 0xe8a900,
    0xfeba35, 0xffff00, 0x70bc1f, 0xba9800, 0xa8a8a8, 0x7d6f00, 0xffffb3, 0x4f5556, 0x000000, 0x0b3d91, 0x770176, 0x293133,
    0x2a1301, 0xf64a8a, 0xb27624, 0xfcbbc5, 0xfe370f, 0xf0f0f0, 0x6a1c8a, 0xa8ddc4, 0x2584bb, 0xfeb343, 0xfff36b, 0xd0a660,
    0xd15400, 0x66ba49, 0x134a46, 0x878787, 0xd8ccc6, 0x435607, 0xfdd9de, 0xf993bc, 0x003822, 0xb2afd4, 0x686ab0, 0xefe3b9,
    0xf73866, 0xb54b64, 0x132b1a, 0xc70156, 0xfe9e32, 0xa8deeb, 0x00673e, 0x4e2990, 0x2f7e20, 0xffcccc, 0xffd911, 0x095ba6,
    0xf0f970, 0xe3f35b, 0xff9900, 0xfff08d, 0xffc8c8,
]
JEF = [
    None, 0x000000, 0xffffff, 0xffff17, 0xff6600, 0x2f5933, 0x237336, 0x65c2c8, 0xab5a96, 0xf669a0, 0xff0000, 0xb1704e,
    0x0b2f84, 0xe4c35d, 0x481a05, 0xac9cc7, 0xfcf294, 0xf999b7, 0xfab381, 0xc9a480, 0x970533, 0xa0b8cc, 0x7fc21c, 0xe5e5e5,
    0x889b9b, 0x98d6bd, 0xb2e1e3, 0x368ba0, 0x4f83ab, 0x386a91, 0x071650, 0xf999a2, 0xf9676b, 0xe3311f, 0xe2a188, 0xb59474,
    0xe4cf99, 0xffcb00, 0xe1add4, 0xc3007e, 0x80004b, 0x540571, 0xb10525, 0xcae0c0, 0x899856, 0x5c941a, 0x003114, 0x5dae94,
    0x4cbf8f, 0x007772, 0x595b61, 0xfffff2, 0xb15818, 0xcb8a07, 0x986c80, 0x98692d, 0x4d3419, 0x4c330b, 0x33200a, 0x523a97,
    0x0d217e, 0x1e77ac, 0xb2dd53, 0xf33689, 0xde649e, 0x984161, 0x4c5612, 0x4c881f, 0xe4de79, 0xcb8a1a, 0xcba21c, 0xff9805,
    0xfcb257, 0xffe505, 0xf0331f, 0x1a842d, 0x386cae, 0xe3c4b4, 0xe3ac81,
]
HUS = [
    0x000000, 0x0000e7, 0x00c600, 0xff0000, 0x840084, 0xffff00, 0x848484, 0x8484e7, 0x00ff84, 0xff7b31, 0xff8ca5, 0x845200,
    0xffffff, 0x000084, 0x008400, 0x7b0000, 0xff6384, 0x522952, 0xff00ff, 0xffde00, 0xffff9c, 0x525252, 0xd6d6d6, 0xff5208,
    0xff9c5a, 0xff52b5, 0xffc6de, 0x523100, 0xb5a584,
]
SEW = [
    0x000000, 0x000000, 0xffffff, 0xffff17, 0xfaa060, 0x5c7649, 0x40c030, 0x65c2c8, 0xac80be, 0xf5bccb, 0xff0000, 0xc08000,
    0x0000f0, 0xe4c35d, 0xa52a2a, 0xd5b0d4, 0xfcf294, 0xf0d0c0, 0xffc000, 0xc9a480, 0x9b3d4b, 0xa0b8cc, 0x7fc21c, 0xb9b9b9,
    0xa0a0a0, 0x98d6bd, 0xb8f0f0, 0x368ba0, 0x4f83ab, 0x386a91, 0x00206b, 0xe5c5ca, 0xf9676b, 0xe3311f, 0xe2a188, 0xb59474,
    0xe4cf99, 0xe1cb00, 0xe1add4, 0xc3007e, 0x80004b, 0xa060b0, 0xc04020, 0xcae0c0, 0x899856, 0x00aa00, 0x218a21, 0x5dae94,
    0x4cbf8f, 0x007772, 0x707070, 0xf2ffff, 0xb15818, 0xcb8a07, 0xf7927b, 0x98692d, 0xa27148, 0x7b554a, 0x4f3946, 0x523a97,
    0x0000a0, 0x0096de, 0xb2dd53, 0xfa8fbb, 0xde649e, 0xb55066, 0x5e5747, 0x4c881f, 0xe4dc79, 0xcb8a1a, 0xc6aa42, 0xecb02c,
    0xf88040, 0xffe505, 0xfa7a7a, 0x6be000, 0x386cae, 0xd0bab0, 0xe3be81,
]
SHV = [
    0x000000, 0x0000ff, 0x33cc66, 0xff0000, 0xff00ff, 0xffff00, 0x7f7f7f, 0x339aff, 0x00ff00, 0xff7f00, 0xffa0b4, 0x994b00,
    0xffffff, 0x000000, 0x000000, 0x000000, 0x000000, 0x000000, 0x000000, 0xff7f7f, 0xff7fff, 0xffff99, 0xc0c0c0, 0x000000,
    0x000000, 0xffa541, 0xffcccc, 0xaf5a0a, 0x000000, 0x000000, 0x000000, 0x000000, 0x000000, 0x00007f, 0x007f00, 0x7f0000,
    0x7f007f, 0xc8c800, 0x3c3c3c, 0x000000, 0x000000, 0xe83f00, 0xff667a,
]


def dist(a, b):
    """the documented red mean colour distance"""
    r1, g1, b1 = a >> 16 & 255, a >> 8 & 255, a & 255
    r2, g2, b2 = b >> 16 & 255, b >> 8 & 255, b & 255
    m = int(round((r1 + r2) / 2))
    r, g, bl = r1 - r2, g1 - g2, b1 - b2
    return ((512 + m) * r * r >> 8) + 4 * g * g + ((767 - m) * bl * bl >> 8)
