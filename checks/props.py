# Single source of properties.jsonl and MANIFEST.json (tools/gen.py writes both).
C = 'heclib/heclib_c/src/'
P = []
import glob, os
_IDX = {}
for _f in glob.glob('/repo/' + C + '**/*.[ch]', recursive=True) + glob.glob('/repo/heclib/hecdss/*.[ch]'):
    _IDX.setdefault(os.path.basename(_f), _f[len('/repo/'):])
def locate(f):
    return _IDX[os.path.basename(f)]
def P_(id, title, statement, over, qtext, why, files, mech, state=(), level='proof', note='', na=None, technique=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=[locate(f) for f in files],
                  mech=mech, state=state, level=level, note=note, na=na, technique=technique, observe=observe))

DT = 'Utilities/DateTime/'
P_('C01', 'Calendar dates and day numbers are a consecutive bijection',
   'For every Gregorian calendar date from year 5 on, the day number of the following date is exactly one more, and 31 December 1899 is day 0; converting any such date to its day number and back returns the same year, month and day. Leap years are those divisible by 4 except centuries not divisible by 400.',
   ['inputs'], 'every date and every day number of years 5..100000', 'tests convert a few dozen dates; the calendar has irregularities (centuries, month ends, 400-year cycle) at any of millions of days',
   [DT + 'yearMonthDayToJulian.c', DT + 'julianToYearMonthDay.c', DT + 'isLeapYear.c'], [dict(name='yearMonthDayToJulian / julianToYearMonthDay', where=DT)])
P_('C02', 'Time values normalise and compare chronologically',
   'Normalising a (day, time of day) pair never changes the instant it denotes and leaves the time of day in 1..day length for the given granularity; comparing two times returns -1, 0 or 1 as the first instant is before, equal to or after the second, whatever granularities and base dates express them; a time is reported inside a window exactly when start <= time <= end.',
   ['inputs'], 'every day number within 100000 years and every 32-bit time value, granularities 1 s, 1 min, 15 min, 1 h, 1 day', 'tests sample a handful of normalised times, almost never negative or multi-day offsets, never mixed granularities at the boundary',
   [DT + 'cleanTime.c', DT + 'compareTimes.c', DT + 'isTimeInRange.c', DT + 'isTimeDefined.c'], [dict(name='cleanTime, compareTimes, isTimeInRange', where=DT)])
P_('C03', 'A time of day written as text reads back as the same time',
   'Writing any second of the day as text in a documented style and reading the text back returns that second (its whole minute for the minute-only styles), the milliseconds style within single precision. Reading a text takes its digits as (h)h:mm(:ss(.fff)), and a text with fewer than three digits of time is refused rather than guessed. Nothing is written past the size given for the text.',
   ['inputs'], 'every second 0..86400, every millisecond, every style and buffer size; for reading, every text of up to 9 characters over digits, colon, point and blank', 'tests use a few round times; truncated text, odd digit counts and small buffers never occur in them',
   [DT + 'secondsToTimeString.c', DT + 'timeStringToSecondsMills.c', DT + 'timeStringToSeconds.c', DT + 'minutesToHourMin.c'], [dict(name='secondsToTimeString / timeStringToSecondsMills', where=DT)])
P_('C04', 'A date written as text reads back as the same date',
   'Writing any calendar date in a documented style gives the documented text, and reading that text back returns the same year, month and day (day 0 for styles without a day). Months outside 1..12 and days outside 1..31 are refused without touching the text, and the text is always terminated inside the size given.',
   ['inputs'], 'every date of years 1000..9999, styles 0, 2, 4, 6, 7, 104, 108 and the numeric styles -13, -101, -111, -112; every small buffer', 'tests sample a dozen dates and never cross styles, month names, letter case and one-digit days systematically',
   [DT + 'yearMonthDayToDate.c', DT + 'dateToYearMonthDay.c'], [dict(name='yearMonthDayToDate / dateToYearMonthDay', where=DT)])
P_('C05', 'Stepping a time by n intervals and counting the intervals agree',
   'Moving a time forward or back by n regular intervals adds exactly n times the interval and returns a normalised time; for months and years it keeps the place in the month, a month end staying a month end. Counting the intervals between two times returns the number of complete intervals, for months and years the number of calendar months and years, so that counting undoes stepping.',
   ['inputs'], 'every start time in 100000 years and every step count that stays in that range, every standard interval', 'the result depends on sign, day boundaries, month lengths, leap years and the base date 31Dec1899; tests sample a few',
   [DT + 'incrementTime.c', DT + 'numberPeriods.c', DT + 'cleanTime.c', DT + 'isLeapYear.c'], [dict(name='incrementTime / numberPeriods', where=DT)])
P_('C06', 'Every time belongs to exactly one storage block, and blocks tile time',
   'The storage block of a time series value starts at the first day of the day, month, year, decade or century that holds the time, the kind of block being set by the interval alone. Stepping from a block to the next or the previous one lands exactly on the neighbouring block start, so blocks neither overlap nor leave gaps and a value can be stored and found only in its own block.',
   ['inputs'], 'every date of years 100 on, every interval of 1 s to 1 year and the five irregular block kinds', 'a wrong block start shows only for dates near the end of a block of one kind; tests store series around a few dates',
   ['TimeSeries/ztsRegGetBlockStart.c', 'TimeSeries/ztsIrregGetBlockStart.c', 'TimeSeries/ztsIncrementBlock.c'], [dict(name='ztsRegGetBlockStart, ztsIrregGetBlockStart, ztsIncrementBlock', where='TimeSeries/')])
P_('C07', 'Interval names and interval lengths correspond one to one',
   'Every standard interval has one name per file version and every name, in any letter case, stands for that interval; no other interval length has a name. A pseudo-regular name (leading ~) selects the irregular block kind that fits the interval, and enumerating the intervals visits each once, in order, and ends.',
   ['inputs'], 'every 32-bit interval, every name in every letter-case combination, file versions 6 and 7', 'tests try a few intervals; an interval table or comparison slip affects one interval, one version or one spelling',
   ['TimeSeries/ztsGetStandardInterval.c', 'headers/standardIntervals.h'], [dict(name='ztsGetStandardInterval', where='TimeSeries/')])
P_('C08', 'The time offset of a regular series is measured and restored exactly',
   'The offset of a time inside its interval is the time elapsed since the interval began, 0 when the time ends an interval. Moving a time to its standard time moves it to the end of the interval holding it and reports that offset, and adjusting by an offset moves the time to that offset of the same interval, for seconds, days, weeks and calendar periods.',
   ['inputs'], 'every time in 100000 years, intervals from 1 s to 1 week, thirds and halves of months, months and years', 'tests store hourly and daily series with one or two offsets; weeks, period ends and negative base days are not sampled',
   ['TimeSeries/ztsOffset.c', 'TimeSeries/ztsOffsetAdjustToStandard.c', 'TimeSeries/ztsOffsetAdjustToOffset.c'], [dict(name='ztsOffset, ztsOffsetAdjustToStandard, ztsOffsetAdjustToOffset', where='TimeSeries/')])
P_('C14', 'Pathname parts are split, replaced and joined without disturbing each other',
   'For a pathname of six parts, each part is found at its place with its length, reading a part returns exactly its characters (at most 128) and setting a part replaces that part, keeps the other five and is refused, leaving the pathname as it was, exactly when the result does not fit the buffer. Forming a pathname from six parts joins the parts, without surrounding blanks, with their slashes; cleaning keeps the printable characters, in order, up to the seventh slash. No buffer is ever read or written outside, also for texts that are not complete pathnames.',
   ['inputs'], 'every pathname of up to 393 characters, every part position, part length and buffer size (texts that are not pathnames: up to 9 to 15 characters)', 'tests use a few dozen pathnames with roomy buffers; full buffers, empty and longest parts and malformed pathnames are not sampled',
   ['Public/zpathnamePartLengths.c', 'Public/zpathnamePartPositions.c', 'Public/zpathnameGetPart.c', 'Public/zpathnameSetPart.c', 'Public/zpathnameForm.c', 'Public/zpathnameAddPart.c', 'Public/zpathnameClean.c', 'Utilities/trimPositions.c', 'Utilities/stringCopy.c'],
   [dict(name='zpathnameGetPart, zpathnameSetPart, zpathnameForm, zpathnameClean', where='Public/')])
P_('C17', 'Buffered file access is transparent',
   'Writing through the record buffer, flushed at any time, leaves in the file exactly the ints written and everything else as it was; reading through it returns the ints written last, whether they are still in the buffer, only in the file, or partly in both. A flush empties what is pending, no request reads or writes outside the buffer or the caller\'s array, and nothing is written while the file is not locked.',
   ['inputs', 'histories'], 'every buffer state (unused, clean, dirty), buffer sizes and requests up to 4096 ints, every file address up to 1000000 words', 'which of a dozen buffer cases is taken depends on sizes and on what was buffered before; tests see few combinations',
   ['Internal/zputBuff.c', 'Internal/zgetBuff.c', 'Internal/zput.c', 'Internal/zget.c', 'System/zreaddisk.c', 'System/zwritedisk.c'],
   [dict(name='zputBuff, zgetBuff', where='Internal/'), dict(name='zput, zget, zwriteDisk, zreadDisk', where='Internal/, System/')])
P_('C18', 'File space is given out once and released space is remembered',
   'Space given to a record or table is either the end of the file, which moves by exactly that amount, or lies inside one released extent, whose remainder alone stays available. Releasing puts exactly the released extent in the table, forgets at most one extent no larger than it, and never touches the end of the file; reuse happens only where the file allows it.',
   ['inputs', 'histories'], 'every request size, every table of up to 500 extents per segment, several segments', 'which extent is taken, split or forgotten depends on the whole history of writes and deletes; a slip gives live space away long after, for few size combinations',
   ['Internal/zgetFileSpace.c', 'Internal/zreleaseFileSpace.c'], [dict(name='zgetFileSpace, zreleaseFileSpace', where='Internal/')])
P_('C10', 'Characters and numbers keep their bytes inside a record',
   'Text put into the ints or longs of a record and taken out again is the same text, byte for byte, zero-filled exactly where asked, and neither direction touches a byte outside the stated size. Two ints packed into a long come back as they were, reversing byte order twice restores every number, and size conversions between bytes, ints and longs always give room for the whole and never a word more.',
   ['inputs'], 'every text of up to 4096 bytes, every buffer size and every fill option; every pair of 32-bit numbers; arrays of up to 2048 ints; sizes to 2 billion', 'lengths that fill a word or the buffer exactly and the four fill options multiply; tests use a few texts with room to spare',
   ['Internal/charLong.c', 'Internal/charInt.c', 'Internal/i4toi8.c', 'Internal/i8toi4.c', 'System/zswap.c', 'System/zswitchInts.c', 'Utilities/numberLongsInInts.c'],
   [dict(name='charLong, charInt, zswap', where='Internal/, System/')])
P_('C13', 'An error code keeps its severity and its parts on the way to the caller',
   'Encoding severity, functions, error number and status into one code and decoding it gives them back, and every code is negative. Adding the calling function on the way up changes that part alone, whatever the chain of callers, so an error stays an error of the same severity; plain statuses stay as they are.',
   ['inputs', 'histories'], 'every severity, function pair, error number and 32-bit status, every calling function', 'tests meet few errors, mostly one level deep; a digit slip makes one severity or function combination look like success',
   ['Internal/zerrorEncode.c', 'Internal/zerrorDecode.c', 'Internal/zerrorEncodeHigh.c', 'Internal/zerrorUpdate.c', 'Internal/zerrorSeverity.c', 'SemiPublic/zisError.c'],
   [dict(name='zerrorEncode, zerrorDecode, zerrorEncodeHigh, zisError', where='Internal/')])
P_('C09', 'Repeat compression gives back the data it was given',
   'Compressing a block of regular data stores each run of equal values once and flags every repeat, and uncompressing any part of the block from those values and flags gives back exactly the values stored there, bit for bit, for every element size. Neither direction reads or writes outside its arrays, and the compressed data is never longer than the data.',
   ['inputs'], 'every block of up to 3000 values of one or two ints, every part of it', 'runs that cross a flag word, begin a part or end the block occur for few data; tests compress a few series',
   ['Internal/ztsRegRepeatCompress.c', 'Internal/ztsRegRepeatUncompress.c'], [dict(name='ztsRegRepeatCompress, ztsRegRepeatUncompress', where='Internal/')])
P_('C15', 'A pathname is found whatever its letter case',
   'The table hash and the pathname hash of a pathname depend only on its characters without their case, the table hash lies inside the table and the pathname hash is never the value that marks a free entry. Two pathnames compare equal exactly when all their characters agree but for case, and only the stated number of characters is read. A collection pathname is recognised and hashed as its collection without touching anything outside the text.',
   ['inputs'], 'every pathname of up to 391 characters, every hash table size 1..100000', 'a hash that differs for one letter, length or table size loses records written under another case; tests use a few names and the default table size',
   ['Internal/zhash.c', 'Public/zpathnameCompare.c', 'Internal/zisaCollection.c', 'Internal/zcollectionsPath.c'], [dict(name='zhash, zpathnameCompare, zisaCollection', where='Internal/, Public/')])
P_('C11', 'The pathname index finds every record and loses none',
   'Looking up a pathname finds the first entry of its chain of bins with that pathname and a wanted status, and reports not found only after every entry of every bin was seen. Adding a pathname writes one entry, with its hash, length, status and address, into free space or space of a deleted entry of the same size, and leaves every other entry, the chain and the end of the bin as they were; a full chain is lengthened by an empty bin behind its last one.',
   ['inputs', 'histories'], 'every chain of well-formed bins of 30 to 400 words, every pathname of up to 392 characters, every status, every reuse level', 'which bin and slot is taken depends on the history of writes and deletes and on name lengths; a slip loses other records of the same chain, far from the write that did it',
   ['Internal/zcheckInternal.c', 'Internal/zbinUpdate.c', 'Internal/zbinNew.c'], [dict(name='zcheckInternal, zbinUpdate, zbinNew', where='Internal/')])
NA_ = lambda i, t, s, o, q, w, f, m, na: P_(i, t, s, o, q, w, f, [dict(name=m, where='heclib_c/src')], na=na)
NA_('C12', 'What is stored in a record is what is retrieved',
    'Storing a record of any type (time series, paired data, text, array, location, grid) and retrieving it gives the same values, units, types and header information, whatever the record held before, also after other records were written, extended or deleted.',
    ['inputs', 'histories'], 'every record type, every sequence of stores and deletes', 'tests store and read a few dozen records once or twice', ['Internal/zwriteInternal.c', 'Public/zread.c', 'Internal/zwriteNew.c', 'Internal/zwriteExisting.c'], 'zwrite / zread',
    'whole-file histories over heap structures of dozens of fields through about 200 functions: no contract within CBMC\'s reach states it; the parts it rests on are claimed instead (index C11, buffers C17, space C18, packing C10, compression C09, blocks C06)')
NA_('C16', 'Wildcards in a catalogue request select exactly the matching pathnames',
    'A catalogue with wildcards lists exactly the records whose parts match (text, text*, *text, *text*), each once, in order of pathname when sorting is asked for.',
    ['inputs'], 'every pattern and pathname', 'tests list a few sample files', ['Public/zcatalog.c', 'Internal/zcatComparePath.c'], 'zcatalog, zcatComparePath',
    'no contract built: the match is a search in six parts with case folding and in-place terminators, and sorting is the C library\'s; one defect found while trying was repaired (known_findings.txt)')
NA_('C19', 'A crash during a write loses at most the record being written',
    'After a crash at any point of a write the file still opens, and every record other than the one being written is as it was.',
    ['crash points'], 'every order of physical writes cut at every point', 'tests never stop a write half way', ['Internal/zpermRead.c', 'Internal/zwriteInternal.c', 'Internal/zflushBuffers.c'], 'lock marks and end-of-file flags',
    'quantifies over prefixes of the sequence of system calls, not over a function\'s inputs: function contracts speak about states at entry and return only')
NA_('C20', 'Programs sharing a file do not damage each other\'s writes',
    'With several processes reading and writing one file under the advisory locks, each write is seen whole or not at all and no write is lost.',
    ['schedules'], 'every interleaving of two or more processes', 'tests run one process', ['System/zlockActive.c', 'Internal/zcheckMultiUser.c', 'Internal/zlockPassive.c'], 'zlockActive, zlockPassive',
    'interleavings of processes through the kernel\'s file locks are outside sequential contracts')
NA_('C21', 'Squeezing a file keeps every record',
    'Squeezing or copying a file gives a file with the same records and values, without the released space.',
    ['histories'], 'every file', 'tests squeeze one or two files', ['Public/zsqueeze.c', 'Public/zcopyFile.c'], 'zsqueeze, zcopyFile',
    'equality of two whole files, through the complete store and retrieve path (see C12) and file renaming')
NA_('C22', 'A time window returns exactly the values stored in it',
    'Retrieving any window of a regular or irregular series returns exactly the values stored in it, in order, missing where none was stored, across any number of blocks and after any overwrites.',
    ['inputs', 'histories'], 'every window, interval and sequence of stores', 'tests read a few windows', ['Internal/ztsRetrieveReg7.c', 'Internal/ztsStoreReg7.c', 'Internal/ztsRetrieveIrreg7.c', 'Internal/ztsStoreIrreg7.c'], 'ztsStoreReg7 / ztsRetrieveReg7',
    'the loops over blocks call the whole read and write path with heap structures of 60 fields; their arithmetic is claimed as C05, C06, C08, C09, the composition is not')
NA_('C23', 'Numbers and units are converted without loss of meaning',
    'Aggregation, conversion of data types, vertical datum shifts and unit conversions give the documented value for every input.',
    ['inputs'], 'every value, every pair of units', 'tests convert a few values', ['Utilities/verticalDatum.c', 'Internal/convertDataArray.c'], 'verticalDatum, convertDataArray',
    'floating point against real-number formulas, plus XML, base64 and zlib texts: CBMC decides IEEE bits but no contract gives the exact result expected')
NA_('C24', 'Grids come back cell for cell',
    'A grid stored with any compression method and retrieved has the same extent, header and cell values.',
    ['inputs'], 'every grid and compression', 'tests store a few grids', ['Public/zspatialGridStore.c', 'Public/zspatialGridRetrieve.c'], 'zspatialGridStore / zspatialGridRetrieve',
    'rests on zlib\'s inflate being the inverse of deflate, an external library without contracts')
NA_('C25', 'A version 6 file is read as the same records',
    'Records of a version 6 file read through the version 7 interface, or converted, keep pathname, times, values and units.',
    ['inputs'], 'every version 6 record', 'tests convert a sample file', ['Public/zcopyFile.c'], 'zcopyFile, version 6 library',
    'the version 6 library is Fortran-style C over common blocks (about 250 files), outside the effort possible here')
