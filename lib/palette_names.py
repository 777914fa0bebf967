"""The names and catalogue numbers of the machine palettes, restated as data: (description, catalog number) of every index."""
PEC = [
    None, ('Prussian Blue', '1'), ('Blue', '2'), ('Teal Green', '3'), ('Cornflower Blue', '4'), ('Red', '5'), ('Reddish Brown', '6'),
    ('Magenta', '7'), ('Light Lilac', '8'), ('Lilac', '9'), ('Mint Green', '10'), ('Deep Gold', '11'), ('Orange', '12'), ('Yellow', '13'),
    ('Lime Green', '14'), ('Brass', '15'), ('Silver', '16'), ('Russet Brown', '17'), ('Cream Brown', '18'), ('Pewter', '19'), ('Black', '20'),
    ('Ultramarine', '21'), ('Royal Purple', '22'), ('Dark Gray', '23'), ('Dark Brown', '24'), ('Deep Rose', '25'), ('Light Brown', '26'),
    ('Salmon Pink', '27'), ('Vermilion', '28'), ('White', '29'), ('Violet', '30'), ('Seacrest', '31'), ('Sky Blue', '32'), ('Pumpkin', '33'),
    ('Cream Yellow', '34'), ('Khaki', '35'), ('Clay Brown', '36'), ('Leaf Green', '37'), ('Peacock Blue', '38'), ('Gray', '39'), ('Warm Gray', '40'),
    ('Dark Olive', '41'), ('Flesh Pink', '42'), ('Pink', '43'), ('Deep Green', '44'), ('Lavender', '45'), ('Wisteria Violet', '46'), ('Beige', '47'),
    ('Carmine', '48'), ('Amber Red', '49'), ('Olive Green', '50'), ('Dark Fuchsia', '51'), ('Tangerine', '52'), ('Light Blue', '53'),
    ('Emerald Green', '54'), ('Purple', '55'), ('Moss Green', '56'), ('Flesh Pink', '57'), ('Harvest Gold', '58'), ('Electric Blue', '59'),
    ('Lemon Yellow', '60'), ('Fresh Green', '61'), ('Orange', '62'), ('Cream Yellow', '63'), ('Applique', '64'),
]
JEF = [
    None, ('Black', '002'), ('White', '001'), ('Yellow', '204'), ('Orange', '203'), ('Olive Green', '219'), ('Green', '226'), ('Sky', '217'),
    ('Purple', '208'), ('Pink', '201'), ('Red', '225'), ('Brown', '214'), ('Blue', '207'), ('Gold', '003'), ('Dark Brown', '205'),
    ('Pale Violet', '209'), ('Pale Yellow', '210'), ('Pale Pink', '211'), ('Peach', '212'), ('Beige', '213'), ('Wine Red', '215'),
    ('Pale Sky', '216'), ('Yellow Green', '218'), ('Silver Gray', '220'), ('Gray', '221'), ('Pale Aqua', '227'), ('Baby Blue', '228'),
    ('Powder Blue', '229'), ('Bright Blue', '230'), ('Slate Blue', '231'), ('Navy Blue', '232'), ('Salmon Pink', '233'), ('Coral', '234'),
    ('Burnt Orange', '235'), ('Cinnamon', '236'), ('Umber', '237'), ('Blond', '238'), ('Sunflower', '239'), ('Orchid Pink', '240'),
    ('Peony Purple', '241'), ('Burgundy', '242'), ('Royal Purple', '243'), ('Cardinal Red', '244'), ('Opal Green', '245'), ('Moss Green', '246'),
    ('Meadow Green', '247'), ('Dark Green', '248'), ('Aquamarine', '249'), ('Emerald Green', '250'), ('Peacock Green', '251'), ('Dark Gray', '252'),
    ('Ivory White', '253'), ('Hazel', '254'), ('Toast', '255'), ('Salmon', '256'), ('Cocoa Brown', '257'), ('Sienna', '258'), ('Sepia', '259'),
    ('Dark Sepia', '260'), ('Violet Blue', '261'), ('Blue Ink', '262'), ('Sola Blue', '263'), ('Green Dust', '264'), ('Crimson', '265'),
    ('Floral Pink', '266'), ('Wine', '267'), ('Olive Drab', '268'), ('Meadow', '269'), ('Mustard', '270'), ('Yellow Ocher', '271'),
    ('Old Gold', '272'), ('Honey Dew', '273'), ('Tangerine', '274'), ('Canary Yellow', '275'), ('Vermilion', '202'), ('Bright Green', '206'),
    ('Ocean Blue', '222'), ('Beige Gray', '223'), ('Bamboo', '224'),
]
HUS = [
    ('Black', '026'), ('Blue', '005'), ('Green', '002'), ('Red', '014'), ('Purple', '008'), ('Yellow', '020'), ('Grey', '024'), ('Light Blue', '006'),
    ('Light Green', '003'), ('Orange', '017'), ('Pink', '011'), ('Brown', '028'), ('White', '022'), ('Dark Blue', '004'), ('Dark Green', '001'),
    ('Dark Red', '013'), ('Light Red', '015'), ('Dark Purple', '007'), ('Light Purple', '009'), ('Dark Yellow', '019'), ('Light Yellow', '021'),
    ('Dark Grey', '025'), ('Light Grey', '023'), ('Dark Orange', '016'), ('Light Orange', '018'), ('Dark Pink', '010'), ('Light Pink', '012'),
    ('Dark Brown', '027'), ('Light Brown', '029'),
]
SEW = [
    ('Unknown', '0'), ('Black', '1'), ('White', '2'), ('Sunflower', '3'), ('Hazel', '4'), ('Green Dust', '5'), ('Green', '6'), ('Sky', '7'),
    ('Purple', '8'), ('Pink', '9'), ('Red', '10'), ('Brown', '11'), ('Blue', '12'), ('Gold', '13'), ('Dark Brown', '14'), ('Pale Violet', '15'),
    ('Pale Yellow', '16'), ('Pale Pink', '17'), ('Peach', '18'), ('Beige', '19'), ('Wine Red', '20'), ('Pale Sky', '21'), ('Yellow Green', '22'),
    ('Silver Grey', '23'), ('Grey', '24'), ('Pale Aqua', '25'), ('Baby Blue', '26'), ('Powder Blue', '27'), ('Bright Blue', '28'),
    ('Slate Blue', '29'), ('Nave Blue', '30'), ('Salmon Pink', '31'), ('Coral', '32'), ('Burnt Orange', '33'), ('Cinnamon', '34'), ('Umber', '35'),
    ('Blonde', '36'), ('Sunflower', '37'), ('Orchid Pink', '38'), ('Peony Purple', '39'), ('Burgundy', '40'), ('Royal Purple', '41'),
    ('Cardinal Red', '42'), ('Opal Green', '43'), ('Moss Green', '44'), ('Meadow Green', '45'), ('Dark Green', '46'), ('Aquamarine', '47'),
    ('Emerald Green', '48'), ('Peacock Green', '49'), ('Dark Grey', '50'), ('Ivory White', '51'), ('Hazel', '52'), ('Toast', '53'), ('Salmon', '54'),
    ('Cocoa Brown', '55'), ('Sienna', '56'), ('Sepia', '57'), ('Dark Sepia', '58'), ('Violet Blue', '59'), ('Blue Ink', '60'), ('Solar Blue', '61'),
    ('Green Dust', '62'), ('Crimson', '63'), ('Floral Pink', '64'), ('Wine', '65'), ('Olive Drab', '66'), ('Meadow', '67'), ('Canary Yellow', '68'),
    ('Toast', '69'), ('Beige', '70'), ('Honey Dew', '71'), ('Tangerine', '72'), ('Ocean Blue', '73'), ('Sepia', '74'), ('Royal Purple', '75'),
    ('Yellow Ocher', '76'), ('Beige Grey', '77'), ('Bamboo', '78'),
]
SHV = [
    ('Black', '0'), ('Blue', '1'), ('Green', '2'), ('Red', '3'), ('Purple', '4'), ('Yellow', '5'), ('Gray', '6'), ('Light Blue', '7'),
    ('Light Green', '8'), ('Orange', '9'), ('Pink', '10'), ('Brown', '11'), ('White', '12'), ('Black', '13'), ('Black', '14'), ('Black', '15'),
    ('Black', '16'), ('Black', '17'), ('Black', '18'), ('Light Red', '19'), ('Light Purple', '20'), ('Light Yellow', '21'), ('Light Gray', '22'),
    ('Black', '23'), ('Black', '24'), ('Light Orange', '25'), ('Light Pink', '26'), ('Light Brown', '27'), ('Black', '28'), ('Black', '29'),
    ('Black', '30'), ('Black', '31'), ('Black', '32'), ('Dark Blue', '33'), ('Dark Green', '34'), ('Dark Red', '35'), ('Dark Purple', '36'),
    ('Dark Yellow', '37'), ('Dark Gray', '38'), ('Black', '39'), ('Black', '40'), ('Dark Orange', '41'), ('Dark Pink', '42'),
]
BRANDS = {"PEC": "Brother", "JEF": "Jef", "HUS": "Hus", "SEW": "Sew", "SHV": "Shv"}


def texts(palette, index):
    d, c = globals()[palette][index]
    return {"description": d, "catalog_number": c, "brand": BRANDS[palette], "chart": BRANDS[palette]}
