"""The IMMA record layout: for each attachment the fields in the order they are on the record, each with its
width, a letter for its encoding (nothing: decimal; b: base 36; c: characters) and the number of units per whole."""
from fractions import Fraction as Fr
from .equiv import *
from .domain import *
from .interp import *
from .models import Piece, str_meth, printf
from .text import Field, Text, cells, text

TABLE = {
    0: '''
        YR:4 MO:2 DY:2 HR:4/100 LAT:5/100 LON:6/100 IM:2 ATTC:1b TI:1 LI:1 DS:1 VS:1 NID:2 II:2 ID:9c C1:2c
        DI:1 D:3 WI:1 W:3/10 VI:1 VV:2 WW:2 W1:1 SLP:5/10 A:1 PPP:3/10 IT:1 AT:4/10 WBTI:1 WBT:4/10 DPTI:1
        DPT:4/10 SI:2 SST:4/10 N:1 NH:1 CL:1b HI:1 H:1b CM:1b CH:1b WD:2 WP:2 WH:2 SD:2 SP:2 SH:2''',
    1: '''
        BSI:1 B10:3 B1:2 DCK:3 SID:3 PT:2 DUPS:2 DUPC:1 TC:1 PB:1 WX:1 SX:1 C2:2 SQZ:1b SQA:1b AQZ:1b AQA:1b
        UQZ:1b UQA:1b VQZ:1b VQA:1b PQZ:1b PQA:1b DQZ:1b DQA:1b ND:1 SF:1b AF:1b UF:1b VF:1b PF:1b RF:1b
        ZNC:1b WNC:1b BNC:1b XNC:1b YNC:1b PNC:1b ANC:1b GNC:1b DNC:1b SNC:1b CNC:1b ENC:1b FNC:1b TNC:1b
        QCE:2 LZ:1 QCZ:2''',
    2: '''
        OS:1 OP:1 FM:2 IX:1 W2:1 SGN:1 SGT:1b SGH:2 WMI:1 SD2:2 SP2:2 SH2:2 IS:1 ES:2 RS:1 IC1:1b IC2:1b
        IC3:1b IC4:1b IC5:1b IR:1 RRR:3 TR:1 QCI:1 QI1:1 QI2:1 QI3:1 QI4:1 QI5:1 QI6:1 QI7:1 QI8:1 QI9:1
        QI10:1 QI11:1 QI12:1 QI13:1 QI14:1 QI15:1 QI16:1 QI17:1 QI18:1 QI19:1 QI20:1 QI21:1 HDG:3 COG:3 SOG:2
        SLL:2 SLHH:3 RWD:3 RWS:3/10''',
    3: '''
        CCCC:4c BUID:6c BMP:5/10 BSWU:4/10 SWU:4/10 BSWV:4/10 SWV:4/10 BSAT:4/10 BSRH:3 SRH:3 SIX:1 BSST:4/10
        MST:1 MSH:3 BY:4 BM:2 BD:2 BH:2 BFL:2''',
    4: '''
        C1M:2c OPM:2 KOV:2c COR:2c TOB:3c TOT:3c EOT:2c LOT:2c TOH:1c EOH:2c SIM:3c LOV:3 DOS:2 HOP:3 HOT:3
        HOB:3 HOA:3 SMF:5 SME:5 SMV:2''',
    5: '''
        OS:1 OP:1 FM:1b IMMV:1b IX:1 W2:1 WMI:1 SD2:2 SP2:2 SH2:2 IS:1 ES:2 RS:1 IC1:1b IC2:1b IC3:1b IC4:1b
        IC5:1b IR:1 RRR:3 TR:1 NU:1c QCI:1 QI1:1 QI2:1 QI3:1 QI4:1 QI5:1 QI6:1 QI7:1 QI8:1 QI9:1 QI10:1 QI11:1
        QI12:1 QI13:1 QI14:1 QI15:1 QI16:1 QI17:1 QI18:1 QI19:1 QI20:1 QI21:1 HDG:3 COG:3 SOG:2 SLL:2 SLHH:3
        RWD:3 RWS:3/10 QI22:1 QI23:1 QI24:1 QI25:1 QI26:1 QI27:1 QI28:1 QI29:1 RH:4/10 RHI:1 AWSI:1 IMONO:7''',
    6: '''
        CCCC:4c BUID:6c FBSRC:1 BMP:5/10 BSWU:4/10 SWU:4/10 BSWV:4/10 SWV:4/10 BSAT:4/10 BSRH:3 SRH:3
        BSST:5/10 MST:1 MSH:4 BY:4 BM:2 BD:2 BH:2 BFL:2''',
    7: '''
        MDS:1 C1M:2c OPM:2 KOV:2c COR:2c TOB:3c TOT:3c EOT:2c LOT:2c TOH:1c EOH:2c SIM:3c LOV:3 DOS:2 HOP:3
        HOT:3 HOB:3 HOA:3 SMF:5 SME:5 SMV:2''',
    8: '''
        OTV:5/1000 OTZ:4/100 OSV:5/1000 OSZ:4/100 OOV:4/100 OOZ:4/100 OPV:4/100 OPZ:4/100 OSIV:5/100
        OSIZ:4/100 ONV:5/100 ONZ:4/100 OPHV:3/100 OPHZ:4/100 OCV:4/100 OCZ:4/100 OAV:3/100 OAZ:4/100 OPCV:4/10
        OPCZ:4/100 ODV:2/10 ODZ:4/100 PUID:10c''',
    9: '''
        CCe:1b WWe:2 Ne:1 NHe:1 He:1 CLe:2 CMe:2 CHe:1 AM:3/100 AH:3/100 UM:1 UH:1 SBI:1 SA:4/10 RI:4/100''',
    95: '''
        ICNR:2 FNR:2 DPRO:2 DPRP:2 UFR:1 MFGR:7 MFGSR:7 MAR:7 MASR:7 BCR:7 ARCR:4c CDR:8 ASIR:1''',
    96: '''
        ICNI:2 FNI:2 JVAD:1b VAD:6 IVAU1:1b JVAU1:1b VAU1:6 IVAU2:1b JVAU2:1b VAU2:6 IVAU3:1b JVAU3:1b VAU3:6
        VQC:1 ARCI:4c CDR:8 ASII:1''',
    97: '''
        ICNE:2 FNE:2 CEF:1 ERRD: ARCE:4c CDE:8 ASIE:1''',
    98: '''
        UID:6c RN1:1b RN2:1b RN3:1b RSA:1 IRF:1''',
    99: '''
        ATTE:1 SUPD:c''',
}
TABLE[97] = '        ICNE:2 FNE:2 CEF:1 ERRD:10 ARCE:4c CDE:8 ASIE:1'
HEADER = {8: ' 82U', 99: '99 0'}
ALPHA = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


class F(object):
    def __init__(self, name, width, enc, units):
        self.name, self.width, self.enc, self.units = name, width, enc, units


def fields(att):
    out = []
    for tok in TABLE[att].split():
        name, rest = tok.split(':')
        rest, _, units = rest.partition('/')
        enc = rest[-1:] if rest[-1:] in ('b', 'c') else 'd'
        w = rest.rstrip('bc')
        out.append(F(name, int(w) if w else None, enc, int(units or 1)))
    return out


def width(att):
    return sum(f.width or 0 for f in fields(att))


def header(att):
    if att == 0:
        return ''
    return HEADER.get(att) or '%2d%2d' % (att, width(att) + 4)


def symbol(att, f, w=None):
    """the whole number on the record"""
    name = 'a%d.%s' % (att, f.name)
    if f.enc == 'b':
        return integer(name, lo=0, hi=35)
    w = w or f.width
    return integer(name, lo=-10 ** (w - 1) + 1, hi=10 ** w - 1)


def field(att, f, w=None):
    """unknown contents of a field"""
    w = w or f.width or 7
    name = 'a%d.%s' % (att, f.name)
    if f.enc == 'c':
        return Field(name, w)
    return Field(name, w, symbol(att, f, w), 36 if f.enc == 'b' else 10)


def raw(att, present, cut=None):
    """the characters of an attachment of which some fields are not blank"""
    cs = list(header(att))
    want = {}
    for i, f in enumerate(fields(att)):
        if present(i, f):
            x = field(att, f)
            cs += cells(x)
            want[f.name] = text(cells(x)) if f.enc == 'c' else scaled(x.value, f)
        else:
            cs += [' '] * (f.width or 7)
            want[f.name] = None
        if cut is not None and i == cut:
            break
    for f in fields(att):
        want.setdefault(f.name, None)
    return cs, want


def scaled(v, f):
    return v if f.units == 1 else norm(Num(pscale(num(v).p, Fr(1, f.units)), False))


def record(atts, present, cut=None):
    cs, want = [], {}
    for a in atts:
        x, w = raw(a, lambda i, f, a=a: present(a, i, f), cut if a == atts[-1] else None)
        cs += x
        want.update(w)
    return cs, want


def stored(att, f, v):
    """the text of a value on the record"""
    if v is None:
        return ' ' * (f.width or 1)
    return v
