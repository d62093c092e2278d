REG = {}
for _mod, _ids in {
    "parsing": "P01 P02 P03 P04",
    "geometry": "P09 P10 P11 P12 P13 P14 P19 P34",
    "paths": "P05 P06 P07 P08 P15 P16 P35",
    "arcs": "P17",
    "construct": "P33",
    "copies": "P51",
    "given": "P52",
    "basics": "P18 P20 P21 P22 P30 P31 P32",
    "dom": "P40 P41 P42 P43 P44 P45 P46 P47",
    "shapes": "P48 P49 P50",
    "values": "P23 P24 P25 P26 P27 P28 P29",
}.items():
    for _id in _ids.split():
        REG[_id] = _mod
