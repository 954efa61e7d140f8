#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)

D='beatmap/difficulty/difficulty.go'; M='beatmap/difficulty/mods.go'
p('C01','Derived difficulty values never go stale',
 'After any sequence of setting HP, CS, OD, AR, mods and custom speed, every derived value (preempt, circle radius, hit windows, spinner ratio, HP modifier, clock rate, real AR and OD) equals that of a fresh Difficulty given the same settings, whatever the order or the earlier values. Each setter changes only its own setting and the getters return what was last set.',
 ['histories','inputs'],'every sequence of setter calls, every setting value and mod combination',
 'The tests call one setter once on three maps; staleness needs a sequence of different setters.',
 [D],[('recomputation of every derived field after each setter','(*Difficulty).calculate and its callers')],
 [('derived fields','Preempt, CircleRadius, Hit50/100/300, HPMod, SpinnerRatio, Speed, ARReal, ODReal',D)],
 ['exported fields and getters of difficulty.Difficulty'])
p('C02','Effective difficulty follows the osu! rules for mods and speed',
 'For every setting, mod set and custom speed: HardRock multiplies AR, OD and HP by 1.4 and CS by 1.3 capped at 10, Easy halves all four, DoubleTime and HalfTime scale time by 1/1.5 and 1/0.75 and custom speed divides it further. Preempt (1800/1200/450), hit windows (300: 80/50/20, 100: 140/100/60, 50: 200/150/100), spinner ratio (3/5/7.5) and circle radius (54.4/32/9.6) are the piecewise linear values osu! uses around 5, and real AR and OD are the settings that would give the speed-adjusted preempt and 300 window without mods.',
 ['inputs','configurations'],'all settings, all mod sets, all speeds',
 'The tests fix the values of three map/mod pairs, no Easy, no HalfTime, no custom speed.',
 [D],[('mod adjustment and range mapping','(*Difficulty).calculate, DifficultyRate, DiffFromRate, GetModifiedTime')],None,
 ['exported fields of difficulty.Difficulty','DifficultyRate, DiffFromRate'])
p('C03','Mod acronyms and mod sets convert both ways without loss',
 'Every one of the 32 mod acronyms parses to exactly its own flag and prints as exactly that acronym, in flag order; text is read two characters at a time, unknown or incomplete parts are ignored and no text makes parsing fail. Parsing NC, PF or DC also sets DT, SD or HT, and printing a set that has NC, DC or PF leaves the implied DT, HT or SD out; long and short names describe the same set.',
 ['inputs'],'every mod text and every mod bit set',
 'No test touches mod text.',[M],[('bit-indexed name tables','modsString, modsStringFull'),('conversion','ParseMods, Modifier.String, Modifier.StringFull')],None,
 ['ParseMods','Modifier.String','Modifier.StringFull'])
p('C04','Mod compatibility and score multipliers follow the osu! tables',
 'A mod set is reported incompatible exactly when it has Target, HR with EZ, DT or NC with HT or DC, SD or PF with NF, Relax with Autopilot, Relax or Autopilot with SD, PF, Auto or NF, or Autopilot with SpunOut. The score multiplier is the product of NF 0.5 (1 under ScoreV2), EZ 0.5, HT 0.3, HD 1.06, HR 1.06 (1.10 under ScoreV2), DT 1.12 (1.20 under ScoreV2), FL 1.12 and SO 0.9, and is 0 with Relax or Autopilot; testing a mod is true exactly when a shared flag is set.',
 ['inputs'],'all mod sets','No test calls any of it, and there are 2^32 mod sets.',
 [M],[('pairwise conditions','Modifier.Compatible'),('multiplier chain','Modifier.GetScoreMultiplier')],None,['Modifier.Compatible','Modifier.GetScoreMultiplier','Modifier.Active'])
PP='performance/osu/pp.go'
p('C05','The pp of a score is what the ppv2 formula gives',
 'For every set of difficulty attributes, score (combo, 300/100/50/miss counts, negative combo or 300 count meaning full combo or all remaining hits) and difficulty, aim, speed, accuracy, flashlight and total pp equal the osu! ppv2 formula of November 2021: length bonus, effective misses derived from combo, combo scaling, AR, Hidden, Flashlight, Touch Device, slider, accuracy and OD terms, the 1.1-norm total, and the NoFail, SpunOut and Relax multipliers. Accuracy used is within [0, 1], accuracy pp is 0 with Relax, flashlight pp is 0 without Flashlight.',
 ['inputs'],'all attributes, scores, mods and difficulty values',
 'Three full-combo perfect scores are tested; misses, combo loss, HD, FL, TD, RX, NF, SO and long maps never are.',
 [PP],[('formula','(*PPv2).PPv2x and its per-skill parts, ppBase')],None,['PPv2.Results','value returned by PPv2x'])
p('C06','A pp calculation depends only on its arguments',
 'The results of a pp calculation depend only on the arguments of that call, not on what the calculator value computed before, so reusing one calculator for many scores gives the same results as fresh ones. The call changes nothing but the calculator itself, and the returned copy and the calculator hold the same results.',
 ['histories','inputs'],'every sequence of calculations on one calculator',
 'Every test uses a fresh calculator once.',[PP],[('all state is overwritten before it is read','(*PPv2).PPv2x')],
 [('PPv2','calculator state kept between calls',PP)],['PPv2.Results'])
SR='performance/osu/difficulty.go'
p('C07','Star attributes combine the skills by the osu! formula',
 'For every beatmap and mods, aim, speed and flashlight ratings are 0.0675 times the square root of the skill values (speed 0 with Relax, flashlight 0 without Flashlight), the slider factor is aim without sliders over aim (1 for negligible aim), and the total is the 1.1-norm of the skills\' base performance on the star scale, flashlight counting only with the Flashlight mod. The same formula turns each set of strain peaks into a total peak.',
 ['inputs'],'all beatmaps and mods','Two maps are tested, no Relax or Flashlight, no slider factor, no peaks.',
 [SR],[('star formula','getStarsFromRawValues, getStars, getPeaks')],None,['CalculateSingle','CalculateStep','CalculateStrainPeaks'])
p('C08','Object counts and max combo of the attributes are exact',
 'The attributes of a calculation count every hit object once: object count is the number of objects rated, circles, sliders and spinners are the numbers of objects of each kind, and max combo is one per object plus one per slider score point (ticks, repeats and end). In a step calculation the i-th attributes count exactly the first i objects.',
 ['inputs'],'all object lists','Counts are never asserted directly; only indirectly for full combos of one map.',
 [SR],[('counting','addObjectToAttribs and the loops that call it')],None,['Attributes of CalculateSingle and CalculateStep'])
p('C09','Single, step and peak calculations agree',
 'For every object list of two or more objects and every difficulty, the attributes after step i equal those of a single calculation of the first i objects, the variants with peaks return the same attributes as those without, and the peaks of all variants are the same. Rating an object depends only on that object and earlier ones, and reading a rating or peaks in the middle changes nothing that comes later.',
 ['histories','inputs'],'all object lists, every prefix',
 'No test compares two calculation functions or uses step or peaks at all.',
 [SR,'performance/osu/skills/skill.go','performance/osu/preprocessing/objects.go'],[('same per-object protocol in the three calculations','calculateSingle, calculateStep, CalculateStrainPeaks'),('read-only aggregation on a copy','(*Skill).DifficultyValue, GetCurrentStrainPeaks')],None,
 ['CalculateSingle','CalculateStep','CalculateStrainPeaks and the WithPeaks variants'])
p('C10','Calculations never modify the beatmap or the difficulty',
 'Star rating, strain peak and pp calculations leave every hit object, slider, timing point and the difficulty passed to them as they were. The same parsed beatmap can therefore be rated any number of times, for any mods, in any order, and concurrently with separate difficulties, with the same results.',
 ['histories','schedules','inputs'],'all beatmaps, all orders and interleavings of calculations',
 'Each test parses its own beatmap and rates it once.',
 [SR,'performance/osu/preprocessing/lazyslider.go','performance/osu/preprocessing/object.go'],[('per-calculation decorators instead of writes into beatmap objects','NewLazySlider, NewDifficultyObject')],None,['objects.Slider, HitObject, difficulty.Difficulty after a calculation'])
p('C11','The library has no hidden shared state and is deterministic',
 'No operation of the library writes package-level state, starts goroutines, or depends on time, randomness, environment, map iteration order or memory addresses. Parsing and calculating the same input therefore always gives the same result, and calls on separate values can run concurrently without data races.',
 ['schedules','inputs','histories'],'all calls, orders and interleavings',
 'Tests run one call at a time and never twice on the same input.',
 ['beatmap/parser.go',SR,'math/curves/bezierapproximator.go'],[('only local state and constants','all packages')],None,['any exported function'])
SK='performance/osu/skills/skill.go'
p('C12','Strain sections, peaks and skill values are aggregated as in osu!',
 'For every sequence of rated objects, a skill decays its strain by base^(delta/1000), adds strain value times multiplier, applies the strain bonus only to the section peak, closes 400 ms sections in order (the first one ends at the first multiple of 400 not before the first object) each starting at the decayed strain at its beginning, and keeps the highest value per section. The skill value is the sum of the peaks in descending order after scaling the top sections by the log-interpolated reduction, weighted by successive powers of the decay weight and the final multiplier; reported peaks are all closed sections plus the current one.',
 ['inputs','histories'],'all object sequences and skill parameters','Two maps are tested through the final sums only.',
 [SK],[('section and history bookkeeping','(*Skill).processInternal, Process, GetPrevious, DifficultyValue')],None,['Skill.Process','Skill.DifficultyValue','Skill.GetCurrentStrainPeaks'])
p('C13','The aim strain of an object follows the osu! aim formula',
 'For every object and history, the aim strain equals the November 2021 osu! formula: velocities with slider travel (only when sliders count), wide and acute angle bonuses under same-rhythm and known-angle conditions with their repetition penalties, velocity change bonus and slider bonus. It is 0 for spinners, right after spinners and for the first objects.',
 ['inputs'],'all objects and histories','Only the aggregate of two maps is tested.',
 ['performance/osu/skills/aim.go'],[('formula','NewAimSkill and its strain delegate')],None,['AimSkill.StrainValueOf'])
p('C14','The speed strain and rhythm bonus follow the osu! speed formula',
 'For every object and history, the speed strain (distance capped at 125, doubletap and hit window corrections, the speed bonus under 75 ms) and the rhythm bonus (islands of equal rhythm within the last 32 objects and 5 s, with their penalties) equal the November 2021 osu! formulas; both are 0 for spinners. A new section starts from the decayed strain multiplied by the current rhythm.',
 ['inputs','histories'],'all objects and histories','Only the aggregate of two maps is tested.',
 ['performance/osu/skills/speed.go'],[('formula','NewSpeedSkill and its strain, bonus and initial strain delegates')],None,['SpeedSkill.StrainValueOf','SpeedSkill.StrainBonusOf','SpeedSkill.CalculateInitialStrain'])
p('C15','The flashlight strain follows the osu! flashlight formula',
 'For every object and history, the flashlight strain equals the November 2021 osu! formula: over up to ten earlier objects, jump distance from their stacked ends over cumulative strain time, weighted 0.8^i with the stack nerf, times the small-distance nerf of the nearest, squared. It is 0 for spinners and earlier spinners are skipped.',
 ['inputs'],'all objects and histories','No test uses Flashlight.',
 ['performance/osu/skills/flashlight.go'],[('formula','NewFlashlightSkill and its strain delegate')],None,['Flashlight.StrainValueOf'])
p('C16','Rated objects carry the osu! distances, angles and times',
 'For every pair or triple of consecutive objects, difficulty and mods, delta and strain time (at least 25 ms), jump, travel and movement distance and time, and angle equal the osu! definitions on mod-specific stacked positions scaled to a radius of 50 (with the small circle bonus), with nothing measured from or to spinners. A preceding slider is measured from the lazy cursor path through its score points (lazy end position, travel distance with the repeat bonus, travel time).',
 ['inputs'],'all object lists and difficulties','Only the aggregate of two maps is tested.',
 ['performance/osu/preprocessing/object.go','performance/osu/preprocessing/objects.go','performance/osu/preprocessing/lazyslider.go'],[('definitions','NewDifficultyObject, NewLazySlider, CreateDifficultyObjects')],None,['DifficultyObject and LazySlider fields'])
T='beatmap/timing/timing.go'
p('C17','Timing points take effect in time order with inherited tempo',
 'Whatever the order in which timing points are added, after finalizing they are ordered by time (equal times in the order added), each inherited point has the base beat length of the point before it, and the point at a time is the last one not later than it, or the first one when there is none. Slider velocity, tick distance and beat length follow from slider multiplier, tick rate, base beat length and the velocity ratio of the point (negative beat length clamped to 10..1000 percent, otherwise 1), and so does the duration of a path length.',
 ['inputs','histories'],'all lists of timing points and query times','Two regular maps are tested through star ratings only.',
 [T,'beatmap/beatmap.go'],[('stable sort, inheritance and binary search','(*Timings).FinalizePoints, GetPointAt, GetOriginalPointAt'),('velocity','GetRatio, GetVelocity, GetTickDistance, GetScoringDistance')],None,['timing.Timings methods'])
p('C18','Sliders get the osu! end time, score points and positions',
 'For every slider and timing, span duration is path length over velocity, the end time is the start plus all spans, and the score points are, per span, ticks every tick distance from the path start (mirrored on reverse spans, none near the end or with an undefined beat length), a reverse at each inner span end and a last one 36 ms before the end but not before the middle, all in time order. The position at any time follows the path forth and back, is clamped to the slider\'s duration, and is the start position for sliders without duration.',
 ['inputs'],'all sliders, timings and times','Ticks, repeats and positions are tested only through two aggregates.',
 ['beatmap/objects/slider.go'],[('tick generation','(*Slider).SetTiming'),('position','(*Slider).PositionAt')],None,['Slider.ScorePoints, EndTime, GetPositionAt'])
p('C19','Slider paths follow their control points and have the declared length',
 'Linear, perfect circle, Bezier and Catmull paths are built from the control points as osu! does (a perfect circle with other than three points or on a line falls back, a doubled point splits a Bezier), then cut or extended at the end to the declared length. A point at a fraction t of a path is found by length, t is clamped to [0, 1], t = 0 of an empty path is the first control point, and Bezier curves are evaluated with exact binomial coefficients. The directions at the ends of a path and at a fraction are those of the parts there, and the ones of circles and Bezier curves point from the end point to a point about one pixel along the curve.',
 ['inputs'],'all control points, lengths and fractions','Only the aggregate of two maps is tested.',
 ['math/curves/multicurve.go','math/curves/approximation.go','math/curves/bezierapproximator.go','math/curves/bezier.go','math/curves/cirarc.go','math/curves/catmull.go'],[('path building','NewMultiCurveT, process*'),('lookup','(*MultiCurve).PointAt')],None,['curves.MultiCurve, Bezier, CirArc, Catmull'])
p('C20','Stack offsets are kept per mod and applied to every position',
 'The stack index and offset of an object for HardRock, for Easy and for no position-changing mod are independent: setting one never changes another, and reading with the same mods returns what was set (HardRock wins when both are given). The stacked start, end and at-time positions for given mods are the plain positions, flipped to 384 - y with HardRock, plus the offset stored for those mods.',
 ['inputs','histories'],'all mods, indices and positions','HardRock is tested through one aggregate, Easy never.',
 ['beatmap/objects/hitobject.go'],[('mod-dispatched accessors','GetStackIndex, SetStackIndex, SetStackOffset, modifyPosition')],None,['IHitObject stack and position methods'])
p('C21','Stacking is computed for each mod variant by the osu! algorithm',
 'Parsing computes stack indices for no mod, Easy and HardRock separately from that variant\'s preempt and the stack leniency, with the osu! stacking algorithm (the older one for file versions under 6), and sets every offset to minus a tenth of the circle radius per stack level in both axes. Spinners never have a stack index. Every parsed beatmap is stacked, with its final objects, settings, leniency and file version.',
 ['inputs'],'all beatmaps; the algorithm itself is decided for every list of up to three objects of any kinds, and most of four, with all times, positions, settings and versions','Only the aggregate of two maps is tested; no Easy, no old file version.',
 ['beatmap/stackleniency.go'],[('stacking','calculateStackLeniency, processStacking, applyNewStacking, applyOldStacking')],None,['stack indices and offsets of a parsed beatmap'])
PA='beatmap/parser.go'
p('C22','Every recognised key of a beatmap file sets exactly its own value',
 'In each section a recognised key sets the value it names and nothing else, unknown keys and sections and comment lines are ignored, and malformed numbers count as 0. Difficulty settings end up within 0..10, slider multiplier within 0.4..3.6 and tick rate within 0.5..8 whatever the file says, and approach rate is the overall difficulty exactly when the file gives no approach rate, in either order.',
 ['inputs'],'all files','Four metadata fields of one map are tested.',
 [PA,'beatmap/beatmap.go','beatmap/pause.go'],[('per-section dispatch','parseGeneral, parseMetadata, parseDifficulty, parseEvents, ParsePoint')],None,['BeatMap fields'])
p('C23','Hit object lines decode to the object and values they describe',
 'A hit object line with enough fields gives a circle, spinner or slider by the lowest-priority rule circle, then spinner, then slider, with its position, start and end time, new combo flag, colour offset, sounds, repeat count, path and length taken from the fields osu! defines; lines with too few fields and other types give none. Coordinates are limited to +-131072, times to +-2147483647 and repeats to 1..9000, and counts of circles, sliders and spinners match the lines read.',
 ['inputs'],'all hit object lines','Only well-formed lines of two maps are read.',
 ['beatmap/objects/util.go','beatmap/objects/baseobject.go','beatmap/objects/slider.go','beatmap/objects/spinner.go',PA],[('decoding','CreateObject, commonParse, NewSlider, NewSpinner, NewCircle')],None,['objects.CreateObject','BeatMap.HitObjects'])
p('C24','Objects are ordered by time and numbered, with correct combos',
 'The objects of a parsed beatmap are ordered by start time, those with equal times in file order, with ids 0, 1, 2 and so on. A new combo starts at every object flagged so and at the first object after a spinner (spinners themselves start none), raises the combo set by one and the skipping combo set by one plus the colour offset, and combo numbers count up from 1.',
 ['inputs'],'all files','Only sorted files are tested and combos never.',
 [PA],[('stable sort and combo pass','ParseFromReader')],None,['HitObject ids and combo fields'])
p('C25','A beatmap is never returned from a failed or unusable read',
 'If the reader fails before the end of the data or a line is too long to be read, parsing returns an error and no beatmap, never a truncated beatmap. A file without any title, artist and creator or without timing points is reported as corrupted, and otherwise a complete beatmap and no error are returned.',
 ['fault_sequences','inputs'],'all readers, every point of failure','Tests only read complete files.',
 [PA,'files/utf.go'],[('error check after scanning','ParseFromReader')],None,['ParseFromReader, ParseFromByte results'])
p('C26','No input makes parsing or rating panic',
 'For every byte sequence, parsing it returns a beatmap or an error; for every mod text, parsing the mods returns; building the path of a slider of any kind from any control points and length and looking points up on it returns; every slider that parsing builds has a score point; and rating any such objects (stars of all of them, step by step, strain peaks, pp of any score) returns. None of this ever has an index or slice bound out of range, an invalid allocation size, a nil dereference, a failed type assertion or an integer division by zero. The subdivision of Bezier curves and the computation of stacks are not part of this property.',
 ['inputs'],'all byte sequences, mod texts, control points, object lists and scores','Only three well-formed files are parsed and rated.',
 [PA,'beatmap/objects/util.go','beatmap/objects/slider.go','math/curves/multicurve.go','math/curves/approximation.go',M,'performance/osu/difficulty.go',SK],[('length guards before field access','ParseFromReader, HasRequiredFields, CreateObject, NewSlider'),('guards of history and empty lists','Skill.processInternal, CalculateSingle, CalculateStep')],None,['ParseFromReader, ParseFromByte, ParseMods','NewMultiCurveT, MultiCurve methods','CalculateSingle, CalculateStep, CalculateStrainPeaks, PPv2x'])
p('C27','Every loop of parsing and rating ends',
 'Every loop that runs while parsing any file (lines, slider points, ticks, path building and cutting, stacking, numbering), while parsing any mod text or while rating any list of objects makes progress in every iteration: on each way to go on, a quantity comes closer to its bound by a fixed amount in exact arithmetic, or a line of the finite input is used up. So no loop can go round without getting nearer to its end, whatever the input. The subdivision of Bezier curves is not part of this property.',
 ['inputs'],'all byte sequences, mod texts, control points and object lists','Tests run three regular files.',
 [PA,'beatmap/stackleniency.go','beatmap/objects/slider.go','math/curves/multicurve.go','math/curves/approximation.go','math/curves/cirarc.go',SK],[('bounded counters and positive steps','all loops reachable from parsing and rating')],None,['any exported parsing or rating function'])
p('C28','The encoding of a beatmap file does not matter',
 'All text the parser sees comes through a decoder that honours a UTF-8, UTF-16LE or UTF-16BE byte order mark and otherwise reads UTF-8, so the same beatmap saved in any of these encodings parses to the same result. Parsing from bytes and from a reader are the same.',
 ['inputs'],'all files in the supported encodings','One file is tested in UTF-16LE for four fields.',
 ['files/utf.go',PA],[('BOM-aware reader under every scanner','NewUnicodeReader, NewScanner, NewScannerBuf')],None,['ParseFromReader, ParseFromByte'])
p('C29','Timing point lines decode to the point they describe',
 'Every line of the TimingPoints section that has at least two comma-separated fields and is no comment adds exactly one timing point, and nothing else in a file does. The fields, with spaces around them ignored, give time (0 if it is no number), beat length, signature (4 if missing or 0), sample set (0 if missing), sample index (1 if missing), volume as percentage (1 if missing), whether the point is inherited (the seventh field is not a number other than 0; not if missing), and the kiai (1) and omit first bar line (8) bits of the eighth. Malformed numbers otherwise count as 0.',
 ['inputs'],'all lines and files','Two regular maps are read, and only their star ratings are compared.',
 ['beatmap/beatmap.go',PA,T],[('decoding of the fields','(*BeatMap).ParsePoint'),('routing of lines','ParseFromReader'),('storing','(*Timings).AddPoint')],None,['Timings.GetPointAt of a parsed beatmap'])
p('C30','Vector, float32 and interpolation helpers compute what they name',
 'For all arguments, the vector operations (sum, difference, product, scaling, middle, dot product, distance, length, normalisation of vectors with a squared length of at least 0.00001, angles, rotation, interpolation, straight line test), the minimum, maximum, clamping and interpolation helpers, and the float32 versions of the math functions compute the operation they are named after, on both coordinates, rounding aside.',
 ['inputs'],'all vectors and numbers','Tests reach some of them through aggregates of two maps.',
 ['math/vector/vector2f.go','math/mutils/utils.go','math/math32/math.go'],[('formulas','Vector2f methods, mutils, math32')],None,['exported functions of vector, mutils and math32'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(P))
