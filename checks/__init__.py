REGISTRY = {
    "P33": ("handlers", "p33"),
    "P34": ("handlers", "p34"),
    "P35": ("effects", "p35"),
    "P40": ("effects", "p40"),
    "P42": ("effects", "p42"),
    "P17": ("bounds", "p17"),
    "P24": ("create", "p24"),
    "P41": ("create", "p41"),
    "P31": ("handlers", "p31"),
    "P30": ("handlers", "p30"),
    "P29": ("handlers", "p29"),
    "P28": ("handlers", "p28"),
    "P27": ("handlers", "p27"),
    "P26": ("handlers", "p26"),
    "P25": ("handlers", "p25"),
    "P01": ("limits", "p01"),
    "P02": ("limits", "p02"),
    "P03": ("limits", "p03"),
    "P04": ("layout", "p04"),
    "P05": ("lookup", "p05"),
    "P06": ("authority", "p06"),
    "P07": ("auth", "p07"),
    "P08": ("auth", "p08"),
    "P09": ("sig", "p09"),
    "P10": ("sig", "p10"),
    "P11": ("sig", "p11"),
    "P12": ("sig", "p12"),
    "P14": ("sig", "p14"),
    "P15": ("roles", "p15"),
    "P16": ("roles", "p16"),
    "P18": ("tail", "p18"),
    "P19": ("tail", "p19"),
    "P20": ("records", "p20"),
    "P21": ("compact", "p21"),
    "P22": ("compact", "p22"),
    "P23": ("compact", "p23"),
}
