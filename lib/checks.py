import registry, detector, printing, xmlfile, pads, surf, tpc, ladder, matmap, tgeo
ALL = {"P01": registry.P01, "P02": registry.P02, "P03": detector.P03, "P04": detector.P04, "P05": detector.P05, "P06": detector.P06, "P15": detector.P15, "P18": detector.P18,
       "P22": printing.P22, "P07": xmlfile.P07, "P08": xmlfile.P08,
       "P09": pads.P09, "P10": pads.P10, "P11": tpc.P11, "P21": pads.P21,
       "P12": tpc.P12, "P13": tpc.P13, "P14": tpc.P14,
       "P16": ladder.P16, "P17": ladder.P17,
       "P23": matmap.P23, "P24": tgeo.P24,
       "P19": surf.P19, "P20": surf.P20}
