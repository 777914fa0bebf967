"""the thirteen pixel high glyphs of the guides of a PNG, as darkness: 0 is black, 9 clear"""
GLYPHS = {
    '0': ("994101599", "930000059", "701796009", "405999406", "308999604", "209506803", "209406803", "209999803", "308999604", "405999406", "701796008", "930000059", "994101599"),
    '1': ("985201999", "910001999", "924711999", "999911999", "999911999", "999911999", "999911999", "999911999", "999911999", "999911999", "999911999", "930000003", "930000003"),
    '2': ("852112699", "400000049", "547885008", "999999307", "999999309", "999998049", "999981299", "999822999", "998129999", "981299999", "712999999", "300000006", "300000006"),
    '3': ("962112699", "500000049", "637896108", "999999308", "999986119", "994000289", "994000289", "999986118", "999999506", "999999505", "357986107", "200000039", "842012599"),
    '4': ("999970079", "999921079", "999524079", "998174079", "993494079", "961994079", "816994079", "439994079", "000000000", "000000000", "999994079", "999994079", "999994079"),
    '5': ("700000059", "700000059", "705999999", "705999999", "701102699", "700000059", "747984009", "999999306", "999999506", "999999306", "358985009", "200000069", "841012799"),
    '6': ("997210389", "960000039", "800489649", "504999999", "308999999", "218301389", "222000018", "202798205", "307999703", "407999703", "702798205", "930000018", "994101389"),
    '7': ("200000005", "200000007", "999999329", "999998059", "999994089", "999991399", "999960699", "999921999", "999704999", "999308999", "998029999", "995069999", "991099999"),
    '8': ("983101489", "810000019", "503897206", "507999506", "703897218", "972000279", "951000169", "603897207", "209999704", "209999703", "303897204", "700000018", "983101489"),
    '9': ("973002699", "700000059", "304897109", "109999506", "119999505", "304897104", "700000304", "972014704", "999999505", "999999207", "937983029", "910000079", "972013899"),
    '-': ("999999999", "999999999", "999999999", "999999999", "999999999", "999999999", "999999999", "991000399", "991000399", "999999999", "999999999", "999999999", "999999999"),
    'm': ("999999999", "999999999", "999999999", "052176128", "010011003", "029404821", "059607941", "059607940", "059607940", "059607940", "059607940", "059607940", "059607940"),
}
