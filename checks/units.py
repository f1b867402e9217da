# Table of units per property.  Unit() and TIER are injected by tools/vf.py.
PROPS = {}

def prop(pid, units, **kw):
    PROPS[pid] = dict(units=units, **kw)

DT = 'Utilities/DateTime/'
GR = [1, 60, 3600, 86400]
prop('C02',
     [Unit(f'cleanTime_g{g}', 'time_clean.c', 'cleanTime', harness='h_clean', defs=[f'G={g}', f'G2={g}']) for g in GR + [900]] +
     [Unit(f'compareTimes_g{a}_g{b}', 'time_clean.c', 'compareTimes', replace=['cleanTime'], harness='h_compare', defs=[f'G={a}', f'G2={b}', 'NORMFORM'])
      for a, b in ((1, 1), (60, 60), (60, 1), (1, 60))] +
     [Unit(f'normalForm_g{g}', 'time_clean.c', 'cleanTime', harness='h_norm', defs=[f'G={g}', f'G2={g}', 'NORMFORM']) for g in (1, 60)] +
     [Unit(f'isTimeInRange_g{g}', 'time_clean.c', 'isTimeInRange', harness='h_range', defs=[f'G={g}']) for g in GR] +
     [Unit('isTimeDefined', 'time_clean.c', 'isTimeDefined', harness='h_defined')])
def jan1(y):
    y1 = y - 1
    return y * 365 + y1 // 4 + y1 // 400 - y1 // 100 + 1 - 693960
JU = [f'julianToYearMonthDay.{i}:{n}' for i, n in ((0, 4), (1, 2), (2, 4), (3, 2))]
YR = [(5, 400), (400, 800), (800, 1200), (1200, 1600), (1600, 2000), (2000, 2400), (2400, 2800), (2800, 3200)]
prop('C01',
     [Unit('isLeapYear', 'time_cal.c', 'isLeapYear', harness='h_leap'),
      *[Unit('ymd_successor_'+k, 'time_cal.c', harness='h_succ_'+k, timeout=500) for k in ('day','month','year')], Unit('ymd_anchor', 'time_cal.c', harness='h_anchor'),
      Unit('ymd_month_carry', 'time_cal.c', harness='h_norm', timeout=500), Unit('dayOfWeek', 'time_cal.c', harness='h_dow')] +
     [Unit(f'julianToYMD_{a}_{b}', 'time_cal.c', harness='h_inv', defs=[f'JLO=({jan1(a)})', f'JHI=({jan1(b)-1})'], unwindset=JU, timeout=500,
           tier='quick' if a in (1600, 2000) else 'thorough') for a, b in YR])
LB = lambda n, *fs: [f'{f}:{n}' for f in fs]
prop('C03',
     [Unit('secondsToTimeString', 'time_text.c', 'secondsToTimeString', harness='h_s2t', unwind=18)] +
     [Unit(f'timeText_roundtrip_style{k}', 'time_text.c', harness='h_round', defs=[f'STYLE={k}'], unwind=17) for k in range(3)] +
     [Unit('timeText_roundtrip_ms', 'time_text.c', harness='h_round_ms', unwind=17),
      Unit('timeText_parse', 'time_text.c', harness='h_parse', unwind=12, kind='bounded', bound='every text of at most 9 characters'),
      Unit('minutesToHourMin', 'time_text.c', harness='h_min', unwind=17)])
DS = [0, 2, 4, 104, 7, 108, 6, -13, -101, -111, -112]
DU = dict(unwind=32, unwindset=['snprintf.0:12', 'snprintf.1:3', 'snprintf.2:2', 'snprintf.3:8', 'snprintf.4:5', 'snprintf.5:6', 'snprintf.6:5', 'snprintf.7:6'], defs0=['SNPRINTF_INT=5'])
def du(*d): return dict(unwind=DU['unwind'], unwindset=['strstr.0:6'], defs=list(d) + DU['defs0'])
prop('C04',
     [Unit(f'date_roundtrip_style{k}', 'time_date.c', harness='h_round', tier='quick' if k in (0, 4, 104, -13, -111) else 'thorough', **du(f'STYLE={k}')) for k in DS] +
     [Unit(f'date_text_style{k}', 'time_date.c', harness='h_text', **du(f'STYLE={k}')) for k in (4, 104, -13, -111)] +
     [Unit('date_refused', 'time_date.c', harness='h_refuse', **du('STYLE=4')), Unit('date_buffer', 'time_date.c', harness='h_small', **du('STYLE=2'))])
GCAL = ['julianToYearMonthDay', 'yearMonthDayToJulian']
CAL = ['julianToYearMonthDay']
prop('C06',
     [Unit('ztsRegGetBlockStart', 'time_block.c', harness='h_reg', replace=CAL, unwind=8),
      Unit('ztsIrregGetBlockStart', 'time_block.c', harness='h_irr', replace=CAL, unwind=8)] +
     [Unit(f'ztsIncrementBlock_{k}{"_back" if b else ""}', 'time_block.c', harness='h_incr', unwind=9, unwindset=['incrementTime:3'], defs=[f'BS={k}', 'INCR', f'BACK={b}', 'NG=%d' % (4 if k < 3 else 5)]) for k in range(1, 6) for b in (0, 1)])
SUBW = [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60, 120, 180, 240, 300, 360, 600, 720, 900, 1200, 1800, 3600, 7200, 10800, 14400, 21600, 28800, 43200, 86400, 604800]
def nmax(i): return min(2**30, 2000000 * 86400 // i)
prop('C05',
     [Unit('lemma_instant', 'time_incr.c', harness='h_split', solver='cvc5i', defs=['I_=1', 'NMAX=1'])] +
     [Unit(f'incrementTime_{i}', 'time_incr.c', harness='h_incr', defs=[f'I_={i}', f'NMAX={nmax(i)}', 'CLEAN_STUB'], solver='cvc5i', unwind=10, unwindset=['incrementTime:3'], tier='quick' if i in (1, 60, 900, 3600, 86400, 604800) else 'thorough') for i in SUBW] +
     [Unit(f'numberPeriods_{i}', 'time_incr.c', harness='h_np', defs=[f'I_={i}', f'NMAX={nmax(i)}'], solver='cvc5i', unwind=10, tier='quick' if i in (1, 60, 900, 3600, 86400, 604800) else 'thorough') for i in SUBW] +
     [Unit(f'incrementTime_{n}_{h}_{b}', 'time_incr.c', harness=f'h_cal_{h}', defs=[f'KIND={k}', f'ABACK={b}', 'I_=1', 'NMAX=1', 'NG=6'], unwind=7, unwindset=['incrementTime:3'])
      for n, k in (('month', 1), ('year', 12)) for h in ('eom', 'off') for b in ((0, 1, 2, 3, 4) if k == 1 else (0, 3, 4)) if not (k == 12 and h == 'off')] +
     [Unit(f'numberPeriods_{n}', 'time_incr.c', harness='h_np_cal', defs=[f'KIND={k}', 'I_=1', 'NMAX=1', 'NG=2'], unwind=4) for n, k in (('month', 1), ('year', 12))] +
     [Unit('numberPeriods_within_year', 'time_incr.c', harness='h_np_year', defs=['KIND=12', 'I_=1', 'NMAX=1', 'NG=2'], unwind=4)])
OFFI = [1, 6, 60, 300, 900, 3600, 21600, 43200, 86400, 604800]
OFFQ = (60, 900, 3600, 86400, 604800)
prop('C08',
     [Unit(f'ztsOffset_{i}', 'time_incr.c', harness='h_off', defs=[f'I_={i}', 'NMAX=1'], unwind=10, solver='cadical', tier='quick') for i in OFFI] +
     [Unit(f'adjustToStandard_{i}', 'time_incr.c', harness='h_std', defs=[f'I_={i}', 'NMAX=1', 'CLEAN_STUB'], unwind=10, solver='cadical', tier='quick') for i in OFFI] +
     [Unit(f'adjustToOffset_{i}', 'time_incr.c', harness='h_adj', defs=[f'I_={i}', 'NMAX=1', 'CLEAN_STUB'], unwind=10, unwindset=['incrementTime:3'], solver='cadical', tier='quick') for i in OFFI if i > 1] +
     [Unit(f'calendarOffset_{n}', 'time_incr.c', harness='h_cal_std', defs=['I_=1', 'NMAX=1', f'SLOTS={k}', 'NG=5'], unwind=7) for n, k in (('year', 0), ('month', 1), ('semi', 2), ('tri', 3))] +
     [Unit(f'calendarAdjust_{n}', 'time_incr.c', harness='h_cal_adj', defs=['I_=1', 'NMAX=1', f'SLOTS={k}', 'NG=3'], unwind=5, unwindset=['incrementTime:3']) for n, k in (('month', 1), ('semi', 2), ('tri', 3))])
prop('C07', [Unit(f'interval_{h}_v{v}', 'intervals.c', harness=f'h_{h}', defs=[f'VER={v}'], unwind=41) for v in (7, 6) for h in ('s2n', 'n2s', 'tilde', 'enum')])

LEN_INV = '1 <= i && i <= (int)pathnameLen && icount >= 0 && icount <= 6 && gP[icount] <= i && (icount == 6 || i < gP[icount + 1]) && istart == gP[icount] - 1 && GLENS(lengths, icount)'
FS = ['--max-field-sensitivity-array-size', '400']
SET = dict(zpathnameSetPart={
    0: dict(inv='0 <= i && i <= newLength && icount == start + i && (GNEW ? i <= gJ || GHAS(pathname, gAt1) : GHAS(pathname, gAt1)) && pathname[gP[6]] == 0'),
    1: dict(inv='0 <= i && i <= newLength && icount == start + i && (GNEW ? i <= gJ || GHAS(pathname, gAt1) : GHAS(pathname, gAt0))'),
    2: dict(inv='icount <= i && i <= endPath && (GSHIFT ? (i > gAt1 ? GHAS(pathname, gAt1) : GHAS(pathname, gAt0)) : GHAS(pathname, gAt1))'),
    3: dict(inv='end - 2 + diff <= i && i <= gP[6] + diff - 1 && pathname[gP[6] + diff] == 0 && (GNEW || (GSHIFT ? (i < gAt1 ? GHAS(pathname, gAt1) : GHAS(pathname, gAt0)) : GHAS(pathname, gAt1)))'),
    4: dict(inv='0 <= i && i <= newLength && icount == start + i && pathname[gP[6] + diff] == 0 && (GNEW ? i <= gJ || GHAS(pathname, gAt1) : GHAS(pathname, gAt1))')})
CPY = dict(stringCopy={0: dict(inv='0 <= i && i <= ilen && (gJ >= i || gJ < 0 || destination[gJ] == gSrc0)', inst='__CPROVER_assume(gJ < 0 || gJ >= ilen || source[gJ] == gSrc0);')})
TRIM = dict(trimPositions={0: dict(inv='0 <= i && i <= len && *start == -1 && (gE < 0 || i <= gA)', inst='GBLANK_AT(string, i);'),
                           1: dict(inv='-1 <= i && i < len && *start == gA && gE >= 0 && i >= gE', inst='GBLANK_AT(string, i);')})
ADD = dict(zpathnameAddPart={0: dict(inv='gA <= i && i <= gE + 1 && count == gC0 + i - gA && count <= (int)sizeofPathname && (gJ < 0 || (gJ < gC0 || gJ >= count ? pathname[gJ] == gBef : pathname[gJ] == gSrc0))')})
CLEAN = dict(zpathnameClean={0: dict(inv='0 <= i && i <= gT && count == gG[i] && count >= 0 && gG[gI] >= 0 && (i <= gI || gG[gI + 1] <= count) &&  slashCount == gS[i] && gS[i] < 7 && count <= (int)sizeofNewPathname - 1 && (i <= gI || !GKEPT(oldPathname, gI) || newPathname[gG[gI]] == gSrc0)', inst='GCLEAN_AT(oldPathname, i);')})
PG = dict(ghost='lib/ghost_path.h', flags=['--arrays-uf-always'])
prop('C14',
     [Unit('partLengths', 'path.c', harness='h_lengths', defs=['LOOPS'], solver='minisat', annot={'zpathnamePartLengths': {0: dict(inv=LEN_INV, inst='GPATH_AT(pathname, i);')}}, unwind=8, **PG),
      Unit('setPart', 'path.c', harness='h_set', unwind=8, defs=['POS_STUB', 'LOOPS'], solver='minisat', annot=SET, split=40, **PG),
      Unit('positions', 'path.c', harness='h_positions', defs=['LOOPS', 'LEN_STUB'], solver='minisat', unwind=8, **PG),
      Unit('getPart', 'path.c', harness='h_get', defs=['LOOPS', 'POS_STUB'], solver='minisat', annot=CPY, unwind=8, **PG),
      Unit('trim', 'path.c', harness='h_trim', defs=['LOOPS'], solver='minisat', annot=TRIM, unwind=8, **PG),
      Unit('addPart', 'path.c', harness='h_add', defs=['LOOPS'], solver='minisat', annot=dict(TRIM, **ADD), unwind=8, **PG),
      Unit('form', 'path.c', harness='h_form', defs=['LOOPS', 'FORM'], solver='minisat', unwind=8, **PG),
      Unit('clean', 'path.c', harness='h_clean', defs=['LOOPS'], solver='minisat', annot=CLEAN, unwind=8, **PG),
      Unit('anyText_positions', 'path.c', harness='h_anytext', defs=['CAP=14'], unwind=15, kind='bounded', bound='texts of up to 13 characters'),
      Unit('anyText_get', 'path.c', harness='h_get_any', defs=['PARTB=16'], unwind=17, kind='bounded', bound='texts of up to 15 characters'),
      Unit('anyText_set', 'path.c', harness='h_set_any', unwind=14, kind='bounded', bound='texts of up to 9 characters')])
# C17: ghost int at address gW; k = its index in the buffer
PBUF = dict(zputBuff={
    0: dict(inv='0 <= i && i <= numberInts && ipos == numberIntsInLongs(iaddress - bufferControl[2]) + i && (gW - 2 * bufferControl[2] < 0 || gW - 2 * bufferControl[2] >= (ipos > bufferControl[3] ? ipos : bufferControl[3]) || buffer[gW - 2 * bufferControl[2]] == ((gW >= 2 * iaddress && gW < 2 * iaddress + i) ? iarray[gW - 2 * iaddress] : gOldB))'),
    1: dict(inv='0 <= i && i <= numberInts && (gW < 2 * iaddress || gW >= 2 * iaddress + i || buffer[gW - 2 * iaddress] == iarray[gW - 2 * iaddress])')})
GBUF = dict(zgetBuff={0: dict(inv='0 <= i && i <= numberInts && ipos == numberIntsInLongs(iaddress - bufferControl[2]) + i && (gW < 2 * iaddress || gW >= 2 * iaddress + i || iarray[gW - 2 * iaddress] == buffer[gW - 2 * bufferControl[2]])')})
PB = dict(ghost='lib/ghost_buff.h', flags=['--arrays-uf-always'], solver='minisat', unwind=3, split=60)
PD = dict(flags=['--arrays-uf-always'], solver='minisat', unwind=3, split=60, native=False)
prop('C17', [Unit(f'{n}_{w}', 'buff.c', harness=h, annot=a, defs=[f'WS={w}'], **PB) for w in (1, 2) for n, h, a in (('zputBuff', 'h_put', PBUF), ('zgetBuff', 'h_get', GBUF))] +
     [Unit(f'{n}_{w}', 'disk.c', harness=h, defs=[f'WS={w}'], **PD) for w in (1, 2) for n, h in (('zput', 'h_put'), ('zget', 'h_get'))] +
     [Unit('zwriteDisk', 'disk.c', harness='h_write', defs=['WS=1', 'REALDISK'], **PD), Unit('zreadDisk', 'disk.c', harness='h_read', defs=['WS=1', 'REALDISK'], **PD)])
# C18
RD = ['gReads', 'gS0', 'gA0', 'gTab[]']
FND = 'sizeHave == 0 || (0 <= loc && loc < gN && reclaimArray[2 * loc] == sizeHave && sizeHave >= sizeNeeded && (loc != gE || sizeHave == gS0))'
GSP = dict(zgetFileSpace={0: dict(inv='iarrayNumber >= 0 && iarrayNumber == gReads && gReads <= 2 && sizeHave == 0 && address == 0 && gWrites == 0 && GTOP', alias=dict(reclaimArray='gTab'), calls={'zreclaimRead': RD, 'zreclaimWrite': ['gWrites', 'gS1', 'gA1']}),
                          1: dict(inv='0 <= i && i <= gN && ' + '(' + FND + ')', inst='GEXT_AT(reclaimArray, i);', exit='gLoc = loc; if (sizeHave) { GEXT_AT(reclaimArray, loc); }')})
RSP = dict(zreleaseFileSpace={0: dict(nullcmp=True, inv='iarrayNumber >= 0 && iarrayNumber == gReads && gReads <= 2 && boolArrayUpdated == 0 && gWrites == 0 && GTOP', alias=dict(reclaimArray='gTab'), calls={'zreclaimRead': RD}),
                              1: dict(inv='0 <= i && i <= gN && ipos == i + i - 2 && boolArrayUpdated == 0 && GTOP && 0 <= loc && loc <= gN + gN - 2 && loc % 2 == 0 && minMem == reclaimArray[loc] && (i == 0 ? loc == 0 : minMem > 0) && (gE >= i || gS0 >= minMem) && reclaimArray[gE + gE] == gS0 && reclaimArray[gE + gE + 1] == gA0', inst='GEXT_AT(reclaimArray, i);', exit='gLoc = (boolArrayUpdated ? ipos : loc) >> 1;', pre='GEXT_AT(reclaimArray, 0);')})
PS = dict(ghost='lib/ghost_space.h', t2unwind=20, flags=['--arrays-uf-always'], solver='minisat', unwind=17)
prop('C18', [Unit('zgetFileSpace', 'space.c', harness='h_get', annot=GSP, **PS), Unit('zreleaseFileSpace', 'space.c', harness='h_release', annot=RSP, **PS)])
# C10
CH = 'gG < {i} && gG < gK ? charTo[gG] == gSrc0 : {e}'
CL = dict(charLong={
    0: dict(inv='0 <= i && i <= numberBytes && numberBytes == gK && ipos == i && (gG < i ? charTo[gG] == gSrc0 : charTo[gG] == gDst0)', inst='GSRC_AT(charFrom, i);'),
    1: dict(inv='0 <= i && i <= gK && i <= gT && numberBytes == i && (gG < i ? charTo[gG] == gSrc0 : charTo[gG] == gDst0)', inst='GSRC_AT(charFrom, i);'),
    2: dict(inv='gK <= i && (i <= len || i == gK) && (gG < gK ? charTo[gG] == gSrc0 : charTo[gG] == (gG < i ? 0 : (gG == gK && gEnd ? 0 : gDst0)))')})
CI = dict(charInt={
    0: dict(inv='0 <= i && i <= numberBytes && (gG < i ? charTo[gG] == gSrc0 : charTo[gG] == gDst0)', inst='GSRC_AT(charFrom, i);'),
    1: dict(inv='numberBytes <= i && i <= len && (gG < numberBytes ? charTo[gG] == gSrc0 : charTo[gG] == (gG < i ? 0 : gDst0))')})
SW = dict(zswap={0: dict(alias_end=dict(c2='iarray'), inv='0 <= i && i <= numberLongs && iarray[gG] == (i > gG ? gL1 : gL0)')})
SI = dict(zswitchInts={0: dict(inv='0 <= i && i <= numberLongs && uarray[gG + gG] == (i > gG ? (unsigned)gI1 : (unsigned)gI0) && uarray[gG + gG + 1] == (i > gG ? (unsigned)gI0 : (unsigned)gI1)')})
PP = dict(ghost='lib/ghost_pack.h', flags=['--arrays-uf-always'], solver='minisat', unwind=3, t2unwind=42)
prop('C10', [Unit('charLong', 'pack.c', harness='h_charLong', annot=CL, **PP), Unit('charInt', 'pack.c', harness='h_charInt', annot=CI, **PP), Unit('i4toi8', 'pack.c', harness='h_pair', unwind=3),
             Unit('zswap', 'pack.c', harness='h_swap', annot=SW, **PP), Unit('zswitchInts', 'pack.c', harness='h_switch', annot=SI, **PP), Unit('sizes', 'pack.c', harness='h_sizes', unwind=3)])
# C13
prop('C13', [Unit('encode', 'errors.c', harness='h_encode', unwind=4, solver='cvc5i'), Unit('update', 'errors.c', harness='h_update', unwind=4, solver='cvc5i', split=60, timeout=150), Unit('status', 'errors.c', harness='h_status', unwind=4)])
# C09: gR[k] rank of value k
RC = dict(ztsRegRepeatCompress={
    1: dict(inv='1 <= i && i <= numberIn && icount == gR[i - 1] + 1 && 1 <= icount && icount <= i && jcount == icount * ES && EQ(dataCompressedOut, (icount - 1) * ES, dataIn, (i - 1) * ES) && (gK >= i ? BIT(header2, gK) == 0 : (gR[gK] >= 0 && gR[gK] < icount && EQ(dataCompressedOut, gR[gK] * ES, dataIn, gK * ES) && (gK == 0 || BIT(header2, gK) == SAME(dataIn, gK)))) && (header2[0] & 1) == 0', inst='GRANK(gR, i, !SAME(dataIn, i));')})
LAST = 'icount == (gR[i - 1] + 1) * ES && gR[i - 1] >= 0 && gR[i - 1] < i'
CV = dict(convertDataType=['dataOut[]'], convertDataLength=['dataOut[]'])
RU = dict(ztsRegRepeatUncompress={
    1: dict(calls=CV, inv='0 <= i && i <= start + 1 && (i == 0 ? icount == 0 : (' + LAST + ' && EQ(dataOut, 0, dataIn, gR[i - 1] * ES))) && (header2[0] & 1) == 0', inst='GRANK(gR, i, !BIT(header2, i));'),
    3: dict(calls=CV, inv='start + 1 <= i && i <= (start < end ? end : start + 1) && ipos == (i - start) * ES && ' + LAST + ' && EQ(dataOut, (i - 1 - start) * ES, dataIn, gR[i - 1] * ES) && (gK < start || gK >= i || (gR[gK] >= 0 && gR[gK] <= gK && EQ(dataOut, (gK - start) * ES, dataIn, gR[gK] * ES)))', inst='GRANK(gR, i, !BIT(header2, i));')})
PC = dict(ghost='lib/ghost_comp.h', flags=['--arrays-uf-always', '--no-signed-overflow-check'], solver='minisat', unwind=4, t2unwind=20, split=80)
prop('C09', [Unit(f'{n}_1', 'comp.c', harness=h, annot=a, defs=['ES=1'], **PC) for n, h, a in (('compress', 'h_comp', RC), ('uncompress', 'h_uncomp', RU))] +
     [Unit(f'{n}_2', 'comp.c', harness=h, defs=['ES=2', 'HV_T2', 'GN=34', 'FIXN=34'], unwind=70, kind='bounded', bound='blocks of 34 values of two ints', flags=['--no-signed-overflow-check', '--max-field-sensitivity-array-size', '100']) for n, h in (('compress', 'h_comp'),)] +
     [Unit(f'uncompress_2_from{f}', 'comp.c', harness='h_uncomp', defs=['ES=2', 'HV_T2', 'GN=34', 'FIXN=34', f'FIXS={f}'], unwind=70, kind='bounded', bound=f'values {f} to 33 of blocks of 34 values of two ints', flags=['--no-signed-overflow-check', '--max-field-sensitivity-array-size', '100']) for f in (0, 20)])
# C15
ZH = dict(zhash={
    0: dict(inv='0 <= i && i <= pathnameLength && 0 <= ibar && (ibar == 0 || ibar < i) && (gI >= i || path[gI] == NCH(pathname, gI, gN))'),
    2: dict(inv='0 <= i && i <= pathnameLength && pathHash == gFold[i] && path[gI] == NCH(pathname, gI, gN)', inst='GNORM_AT(path, pathname, i); GFOLD_AT(pathname, i);'),
    3: dict(inv='0 <= ihave && ihave <= 8 && 1 <= ineed && ineed <= ibit && 0 <= ibyte && ibyte <= nt && (ibyte == 0 ? ihave == 0 && ineed == ibit && i2 == 0 && it == 0 : ihave > 0 && it == gT[8 * ibyte - ihave] && i2 == gX[8 * ibyte - ihave]) && 0 <= i2 && i2 <= 510 * (1 << (ibit - ineed)) - 128 && 0 <= it && it < (1 << ibit) * 2 && path[gI] == NCH(pathname, gI, gN)',
            inst='GNORM_AT(path, pathname, ibyte); GBITS(pathname, ihave, ineed, ibyte, nt);')})
PH = dict(ghost='lib/ghost_hash.h', flags=['--arrays-uf-always', '--no-signed-overflow-check'], solver='minisat', t2unwind=60)
CMPS = dict(zstringCompare={0: dict(inv='0 <= i && i <= (int)length && (gAll || i <= gJ)', inst='GCMP_AT(string1, string2, i);')})
CMPP = dict(zpathnameCompare={1: dict(inv='0 <= i && i <= (int)pathnameLength && (gAll || i <= gJ)', inst='GLONG_AT(pathname2, lpathname2, i); GCMP_AT(pathname1, (const char *)lpathname2, i);', pre='if (!gAll) { GLONG_AT(pathname2, lpathname2, gJ); }')})
COLL = dict(zisaCollection={0: dict(inv='4 <= i && i < pathnameLength && 0 <= numbSlashes && numbSlashes <= 1 && ipos == 0'), 1: dict(inv='4 <= i && i < ipos && ipos < pathnameLength')})
prop('C15', [Unit('zhash', 'hash.c', harness='h_hash', defs=['HASH'], annot=ZH, unwind=18, split=100, **PH),
             Unit('zstringCompare', 'hash.c', harness='h_string', defs=['CMP'], annot=CMPS, unwind=3, **PH),
             Unit('zpathnameCompare', 'hash.c', harness='h_path', defs=['CMP'], annot=CMPP, unwind=3, **PH),
             Unit('zisaCollection', 'hash.c', harness='h_coll', annot=COLL, unwind=3, **PH)], native_flags=['-fwrapv'])
# C11
BCALLS = dict(zmessageDebug=[], zmessage2=[], zerrorProcessing=[], zerrorUpdate=[], zisError=[], zpathnameCompare=[], numberLongsInBytes=[], i4toi8=[], snprintf=['messageString[]', 'buff[]'], zget=['gW0', 'gLink', 'gAddr', 'gB[]', 'pathnameBin[]'], zput=['gPuts'], zbinNew=['gW0', 'gLink', 'gAddr', 'gB[]', 'pathnameBin[]', 'gNews', 'gOldHash', 'ifltab[]'], charLong=['pathnameBin[]', 'path[]'],
              i8toi4=['numberChars', 'pathSizeInBin', 'pathnameSize', 'pathnameLength', 'julianFirst', 'julianLast', 'temp'])
BINV = 'BKEEP(ifltab) && gPuts == 0 && gNews == 0 && gB[0] == 1 && pathnameBin[gW] == gW0 && pathnameBin[isize - 1] == gLink && (gLink == 0 || (gLink >= 100 && gLink < GADDRMAX)) && ifltab[zdssKeys.kbinAddCurrent] >= 100 && ifltab[zdssKeys.kbinAddCurrent] < GADDRMAX && fileHeader[zdssFileKeys.kreclaimedPaths] >= 0 && fileHeader[zdssFileKeys.kreclaimedPaths] <= 1000000 && fileHeader[zdssFileKeys.kbinsOverflow] == 3 && done == 0 && (!boolUseRecovered || ifltab[zdssKeys.kbinWithSpace] != 0)'
BU = dict(zbinUpdate={0: dict(calls=BCALLS, inv=BINV + ' && (boolReadBin ? 1 : ifltab[zdssKeys.kbinAddCurrent] == gAddr && !boolUseRecovered)'),
                      1: dict(calls=BCALLS, inv=BINV + ' && 0 <= icount && icount <= isize - 2 && gB[icount] == 1 && ifltab[zdssKeys.kbinAddCurrent] == gAddr && boolReadBin && (boolUseRecovered || gLink == 0)', inst='GBIN_AT(pathnameBin, icount);')})
PBN = dict(ghost='lib/ghost_bins.h', flags=['--arrays-uf-always', '--max-field-sensitivity-array-size', '200'], solver='minisat', t2unwind=60, unwind=330)
BN = dict(zbinNew={0: dict(inv='0 <= i && i <= (int)fileHeader[zdssFileKeys.kbinSize] && (gW >= i || pathnameBin[gW] == 0)')})
FCALLS = dict(snprintf=['messageString[]'], zmessageDebug=[], zmessage2=[], zmessageDebugInt=[], zmessageDebugLong=[], zmessageLong=[], zerrorProcessing=[], zerrorUpdate=[], zisError=[], zpathnameCompare=[], zcompareRecordStatus=[], i4toi8=[], i8toi4=['numberChars', 'pathnameSize', 'type', 'temp'],
              zpermRead=['gFailed'], zget=['gFailed', 'gGets', 'gLink', 'gAddr', 'gVSeen', 'gB[]', 'gSm[]', 'pathnameBin[]', 'gAl', 'binAlias[]'])
FKEEP = 'ifltab[zdssKeys.kfileHeader] == gHdrP && ifltab[zdssKeys.kpathBin] == gPbP && ifltab[zdssKeys.kpathnameHash] == gHash && ifltab[zdssKeys.klenLastPath] == gLen && ifltab[zdssKeys.ktableHash] == tableHash && ifltab[zdssKeys.khashTableBinAdd] == gTabAdd && (ifltab[zdssKeys.kbinWithSpace] == 0 || ifltab[zdssKeys.kbinWithSpace] != gVA || gVSeen)'
FI = FKEEP + ' && boolFound == 0 && ifltab[zdssKeys.kpathsThisHash] >= 0'
BF = dict(zcheckInternal={0: dict(calls=FCALLS, inv=FI + ' && binAddress >= 100 && binAddress < GADDRMAX && binAddress == (gGets ? gLink : gTabAdd) && (!gGets || !WMATCH(pathnameBin))'),
                          1: dict(calls=FCALLS, inv=FI + ' && 0 <= icount && icount < isize - 2 && gB[icount] == 1 && !(gWO < icount && WMATCH(pathnameBin)) && ifltab[zdssKeys.kbinAddCurrent] == binAddress', inst='GFIND_AT(pathnameBin, icount);'),
                          2: dict(calls=dict(FCALLS, zget=['gFailed', 'gAl', 'binAlias[]']), pre='gAlias = 1; gPA = ifltab[zdssKeys.kpathBinAddress]; gPI = ifltab[zdssKeys.kinfoAddInBin];', inv=FKEEP + ' && boolFound == 1 && ifltab[zdssKeys.kpathBinAddress] == gPA && ifltab[zdssKeys.kinfoAddInBin] == gPI')})
prop('C11', [Unit('zbinUpdate', 'bins.c', harness='h_update', defs=['UPDATE'], annot=BU, split=60, **PBN),
             Unit('zbinNew', 'bins.c', harness='h_new', defs=['NEWBIN'], annot=BN, **PBN),
             Unit('zcheckInternal', 'bins.c', harness='h_check', defs=['CHECK'], annot=BF, split=60, **PBN)])
