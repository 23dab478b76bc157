"""Timber strength classes (EN 338, EN 1194, Kerto LVL) as the repository states them [MPa, kg/m3];
pinned here because the product standards are not available offline, and the EN 1995-1-1 tables."""
SOLID_TIMBER = {
    'C14': {'fmk': 14, 'ft0k': 8, 'ft90k': 0.4, 'fc0k': 16, 'fc90k': 2.0, 'fvk': 1.7, 'E0mean': 7000, 'E005': 4700, 'E90mean': 230, 'Gmean': 440, 'G005': 300, 'rhok': 290, 'rhomean': 350},
    'C16': {'fmk': 16, 'ft0k': 10, 'ft90k': 0.4, 'fc0k': 17, 'fc90k': 2.2, 'fvk': 2.0, 'E0mean': 8000, 'E005': 5400, 'E90mean': 270, 'Gmean': 500, 'G005': 340, 'rhok': 310, 'rhomean': 370},
    'C18': {'fmk': 18, 'ft0k': 11, 'ft90k': 0.5, 'fc0k': 18, 'fc90k': 2.2, 'fvk': 2.0, 'E0mean': 9000, 'E005': 6000, 'E90mean': 300, 'Gmean': 560, 'G005': 380, 'rhok': 320, 'rhomean': 380},
    'C20': {'fmk': 20, 'ft0k': 12, 'ft90k': 0.5, 'fc0k': 19, 'fc90k': 2.3, 'fvk': 2.3, 'E0mean': 9500, 'E005': 6400, 'E90mean': 320, 'Gmean': 590, 'G005': 405, 'rhok': 330, 'rhomean': 390},
    'C22': {'fmk': 22, 'ft0k': 13, 'ft90k': 0.5, 'fc0k': 20, 'fc90k': 2.4, 'fvk': 2.4, 'E0mean': 10000, 'E005': 6700, 'E90mean': 330, 'Gmean': 630, 'G005': 430, 'rhok': 340, 'rhomean': 410},
    'C24': {'fmk': 24, 'ft0k': 14, 'ft90k': 0.5, 'fc0k': 21, 'fc90k': 2.5, 'fvk': 2.5, 'E0mean': 11000, 'E005': 7400, 'E90mean': 370, 'Gmean': 690, 'G005': 460, 'rhok': 350, 'rhomean': 420},
    'C27': {'fmk': 27, 'ft0k': 16, 'ft90k': 0.5, 'fc0k': 22, 'fc90k': 2.6, 'fvk': 2.7, 'E0mean': 11500, 'E005': 7700, 'E90mean': 380, 'Gmean': 720, 'G005': 480, 'rhok': 370, 'rhomean': 450},
    'C30': {'fmk': 30, 'ft0k': 18, 'ft90k': 0.6, 'fc0k': 23, 'fc90k': 2.7, 'fvk': 3.0, 'E0mean': 12000, 'E005': 8000, 'E90mean': 400, 'Gmean': 750, 'G005': 500, 'rhok': 380, 'rhomean': 460},
    'C35': {'fmk': 35, 'ft0k': 21, 'ft90k': 0.6, 'fc0k': 25, 'fc90k': 2.8, 'fvk': 3.4, 'E0mean': 13000, 'E005': 8700, 'E90mean': 430, 'Gmean': 810, 'G005': 540, 'rhok': 400, 'rhomean': 480},
    'C40': {'fmk': 40, 'ft0k': 24, 'ft90k': 0.6, 'fc0k': 25, 'fc90k': 2.8, 'fvk': 3.8, 'E0mean': 14000, 'E005': 9400, 'E90mean': 470, 'Gmean': 880, 'G005': 590, 'rhok': 420, 'rhomean': 500},
    'D30': {'fmk': 30, 'ft0k': 18, 'ft90k': 0.6, 'fc0k': 23, 'fc90k': 8.0, 'fvk': 4, 'E0mean': 11000, 'E005': 9200, 'E90mean': 730, 'Gmean': 690, 'G005': 500, 'rhok': 530, 'rhomean': 640},
    'D35': {'fmk': 35, 'ft0k': 21, 'ft90k': 0.6, 'fc0k': 25, 'fc90k': 8.1, 'fvk': 4, 'E0mean': 12000, 'E005': 10100, 'E90mean': 800, 'Gmean': 750, 'G005': 550, 'rhok': 540, 'rhomean': 650},
    'D40': {'fmk': 40, 'ft0k': 24, 'ft90k': 0.6, 'fc0k': 26, 'fc90k': 8.3, 'fvk': 4, 'E0mean': 13000, 'E005': 10900, 'E90mean': 860, 'Gmean': 810, 'G005': 600, 'rhok': 550, 'rhomean': 660},
    'D50': {'fmk': 50, 'ft0k': 30, 'ft90k': 0.6, 'fc0k': 29, 'fc90k': 9.3, 'fvk': 4, 'E0mean': 14000, 'E005': 11800, 'E90mean': 930, 'Gmean': 880, 'G005': 650, 'rhok': 620, 'rhomean': 750},
    'D60': {'fmk': 60, 'ft0k': 36, 'ft90k': 0.6, 'fc0k': 32, 'fc90k': 10.5, 'fvk': 4.5, 'E0mean': 17000, 'E005': 14300, 'E90mean': 1130, 'Gmean': 1060, 'G005': 700, 'rhok': 700, 'rhomean': 840},
    'D70': {'fmk': 70, 'ft0k': 42, 'ft90k': 0.6, 'fc0k': 34, 'fc90k': 13.5, 'fvk': 5, 'E0mean': 20000, 'E005': 16800, 'E90mean': 1330, 'Gmean': 1250, 'G005': 750, 'rhok': 900, 'rhomean': 1080},
}
GLT = {
    'GL24c': {'fmk': 24, 'ft0k': 14, 'ft90k': 0.35, 'fc0k': 21, 'fc90k': 2.4, 'fvk': 2.2, 'E0mean': 11600, 'E005': 9400, 'E90mean': 320, 'Gmean': 590, 'G005': 480, 'rhok': 350, 'rhomean': 390},
    'GL24h': {'fmk': 24, 'ft0k': 16.5, 'ft90k': 0.4, 'fc0k': 24, 'fc90k': 2.7, 'fvk': 2.7, 'E0mean': 11600, 'E005': 9400, 'E90mean': 390, 'Gmean': 720, 'G005': 530, 'rhok': 380, 'rhomean': 390},
    'GL28c': {'fmk': 28, 'ft0k': 16.5, 'ft90k': 0.4, 'fc0k': 24, 'fc90k': 2.7, 'fvk': 2.7, 'E0mean': 12600, 'E005': 10200, 'E90mean': 390, 'Gmean': 720, 'G005': 580, 'rhok': 380, 'rhomean': 430},
    'GL28h': {'fmk': 28, 'ft0k': 19.5, 'ft90k': 0.45, 'fc0k': 26.5, 'fc90k': 3.0, 'fvk': 3.2, 'E0mean': 12600, 'E005': 10200, 'E90mean': 420, 'Gmean': 780, 'G005': 630, 'rhok': 410, 'rhomean': 460},
    'GL30c': {'fmk': 30, 'ft0k': 20, 'ft90k': 0.5, 'fc0k': 25, 'fc90k': 3.0, 'fvk': 3.5, 'E0mean': 13000, 'E005': 10800, 'E90mean': 300, 'Gmean': 650, 'G005': 540, 'rhok': 390, 'rhomean': 430},
    'GL30h': {'fmk': 30, 'ft0k': 19.5, 'ft90k': 0.5, 'fc0k': 24.5, 'fc90k': 2.5, 'fvk': 3.5, 'E0mean': 13000, 'E005': 10800, 'E90mean': 300, 'Gmean': 650, 'G005': 540, 'rhok': 390, 'rhomean': 430},
    'GL32c': {'fmk': 32, 'ft0k': 19.5, 'ft90k': 0.45, 'fc0k': 26.5, 'fc90k': 3.0, 'fvk': 3.2, 'E0mean': 13700, 'E005': 11100, 'E90mean': 420, 'Gmean': 780, 'G005': 630, 'rhok': 410, 'rhomean': 470},
    'GL32h': {'fmk': 32, 'ft0k': 22.5, 'ft90k': 0.5, 'fc0k': 29, 'fc90k': 3.3, 'fvk': 3.8, 'E0mean': 13700, 'E005': 11100, 'E90mean': 460, 'Gmean': 850, 'G005': 690, 'rhok': 430, 'rhomean': 500},
}
LVL = {
    'Kerto_S': {'fmk': 44, 's': 0.12, 'fm0flatk': 50, 'ft0k': 35, 'ft90edgek': 0.8, 'fc0k': 35, 'fc90edgek': 6.0, 'fc90flatk': 1.8, 'fvk': 4.1, 'fr0k': 2.3, 'E0mean': 13800, 'E005': 11600, 'Gedgemean': 600, 'Gedge005': 400, 'rhok': 480, 'rhomean': 510},
    'Kerto_T': {'fmk': 27, 's': 0.15, 'fm0flatk': 32, 'ft0k': 24, 'ft90edgek': 0.5, 'fc0k': 26, 'fc90edgek': 4.0, 'fc90flatk': 1.0, 'fvk': 2.4, 'fr0k': 1.3, 'E0mean': 10000, 'E005': 8800, 'Gedgemean': 400, 'Gedge005': 300, 'rhok': 410, 'rhomean': 440},
    'Kerto_Q_21_24': {'fmk': 28, 's': 0.12, 'fm0flatk': 32, 'ft0k': 19, 'ft90edgek': 6.0, 'fc0k': 19, 'fc90edgek': 9.0, 'fc90flatk': 2.2, 'fvk': 4.5, 'fr0k': 1.3, 'E0mean': 10000, 'E005': 8300, 'Gedgemean': 600, 'Gedge005': 400, 'rhok': 480, 'rhomean': 510},
    'Kerto_Q_27_69': {'fmk': 32, 's': 0.12, 'fm0flatk': 36, 'ft0k': 26, 'ft90edgek': 6.0, 'fc0k': 26, 'fc90edgek': 9.0, 'fc90flatk': 2.2, 'fvk': 4.5, 'fr0k': 1.3, 'E0mean': 10500, 'E005': 8800, 'Gedgemean': 600, 'Gedge005': 400, 'rhok': 480, 'rhomean': 510},
}

# Table 3.1 (service classes 1 and 2, class 3)
_K12 = {"perm": 0.6, "lt": 0.7, "mt": 0.8, "st": 0.9, "inst": 1.1}
_K3 = {"perm": 0.5, "lt": 0.55, "mt": 0.65, "st": 0.7, "inst": 0.9}


def kmod(sc, ldc):
    return (_K3 if sc == 3 else _K12)[ldc]


def kdef(sc):  # Table 3.2: solid timber, glued laminated timber, LVL
    return {1: 0.6, 2: 0.8, 3: 2.0}[sc]


GAMMA = {"solid_timber": 1.3, "glt": 1.25, "lvl": 1.2}  # Table 2.3


def kind(name):
    return "solid_timber" if name in SOLID_TIMBER else "glt" if name in GLT else "lvl"


def data(name):
    return (SOLID_TIMBER.get(name) or GLT.get(name) or LVL.get(name))
