"""Source of properties.jsonl (python3 tools/mkprops.py > properties.jsonl)."""
import json
P=[]
P_="numba_pokemon_prngs/"
def p(id,title,statement,over,text,why,files,mechanism,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":[P_+f for f in files],
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mechanism],
        "observe_at":list(observe),"hook_needed":hook}})

p("C01","LCRNG streams follow their published recurrence for every seed and history",
 "From every 32- or 64-bit seed, each LCRNG (PokeRNG, ARNG, XDRNG, BWRNG, their reversed forms, and any LCRNG built by the public factories from a multiplier and an addend) steps its seed as seed*mult+add modulo 2^32 or 2^64 with the constants the README publishes for that game. Each full draw returns the new seed, and each half-width draw returns its upper half. Re-seeding and any mix of draws, advances and jumps leave the stream exactly where the recurrence puts it.",
 ["inputs","histories"],"all seeds, all factory constants (zero, even and all-ones included), all interleavings of draws, re-seeds, advances and jumps, compiled and uncompiled",
 "The tests draw a fixed handful of values from one or two seeds of a few classes; wrap-around, extreme seeds and constants, reversed classes and mixed histories are never reached.",
 ["lcrng/__init__.py","lcrng/lcrng32.py","lcrng/lcrng64.py"],
 [("seed update of the generated step functions","lcrng32.py lcrng32_init next_, lcrng64.py lcrng64_init next_"),("published constants","lcrng/__init__.py")],
 [("seed","the whole state of the generator","LCRNG32.seed, LCRNG64.seed")],["return value and seed after every public call"])
p("C02","Jumping by n lands exactly where n single steps land, for every n",
 "For every LCRNG, every seed and every n that fits its width, a jump by n, a pre-computed constant jump by n, and an advance by n all end on the same seed as n single draws, and return it. This holds whether n is given as a Python int below 2^63 or as a numpy unsigned integer of the generator's width. Jumps compose: jumping by a and then by b equals jumping by a+b modulo the period.",
 ["inputs","histories"],"all seeds and all jump distances 0..2^32-1 or 2^64-1 (every single bit, runs of bits, all ones), for all classes and custom constants",
 "The tests jump by a few fixed distances, which exercise a few of the 32 or 64 rows of the pre-computed tables; one wrong high row stays invisible.",
 ["lcrng/lcrng32.py","lcrng/lcrng64.py"],
 [("jump table and its traversal","lcrng32_init/lcrng64_init jump_table, jump, const_jump"),("stepwise advance","LCRNG32.advance, LCRNG64.advance")],
 [("seed","position in the stream","LCRNG32.seed, LCRNG64.seed")],["seed and return value of jump/const_jump/advance"])
p("C03","Backward stepping undoes forward stepping, from every reachable state",
 "For every generator that can be run backward (reversed LCRNGs, built-in or factory-made, and the stepping-back operation of the three Xorshift generators), n steps forward followed by n steps back, or the other way round, restore the exact state, for every state and every n. Stepping a Xorshift generator back returns the very value whose draw it undoes. A reversed LCRNG exists exactly when the multiplier is odd; an even multiplier is rejected with ValueError, on every supported Python version.",
 ["inputs","histories"],"all states, all step counts, all odd and even multipliers; every mix of forward and backward steps and jumps",
 "No test steps a Xorshift generator backward or checks that a reversed class undoes its forward class; the code path for older Python versions is never executed.",
 ["lcrng/lcrng32.py","lcrng/lcrng64.py","lcrng/__init__.py","xorshift/xorshift128.py","xorshift/xoroshiro128plus.py","compatability.py","util.py"],
 [("modular inverse","compatability.py mod_inv"),("inverse constants","lcrng32_init/lcrng64_init reverse branch"),("inverse state transition","Xorshift128.previous, Xoroshiro128Plus*.previous")],
 [("seed/state","generator state","LCRNG*.seed, Xorshift*.state")],["state and value after each forward/backward step"])
p("C04","Bounded draws stay in range and follow their documented distribution exactly",
 "For every generator, state and bound m >= 1, a bounded draw lies in [0, m) (or between the two limits given) and equals the documented map - modulo, reciprocal division, multiplication-shift, rejection under the smallest covering bit mask, or the Unity integer/float/alternate ranges - applied to the draw it consumes. It consumes exactly one draw, or with rejection exactly the draws up to the first accepted one. A pre-compiled constant-bound draw is indistinguishable from the same call with that bound.",
 ["inputs"],"all draws x all bounds (1, powers of two and their neighbours, the largest bound), all generator families, compiled and uncompiled",
 "Tests use a few bounds on a few seeds; boundary draws (quotient edges, rejected draws, bound 1, bounds near the word size, negative limits) are not sampled.",
 ["lcrng/lcrng32.py","lcrng/lcrng64.py","lcrng/__init__.py","mersenne_twister/mt.py","mersenne_twister/sfmt.py","mersenne_twister/tinymt.py","xorshift/xorshift128.py","xorshift/xoroshiro128plus.py"],
 [("distribution functions","next_rand, const_rand, next_rand_mod, next_randrange, next_alternate_rand, next_float_randrange"),("rejection mask","Xoroshiro128PlusRejection.bit_mask")],
 [("state","stream position; decides what was consumed","seed/state/index of each generator")],["returned value, then the following full draw"])
p("C05","The Mersenne Twister reproduces MT19937 across regenerations and advances",
 "For every 32-bit seed the Mersenne Twister yields the MT19937 sequence, at every position, across every regeneration of its block. Advancing by n, at any point in a block and for any n below 2^32, is equivalent to discarding n draws. Shuffling moves to the start of the next block.",
 ["inputs","histories"],"all seeds, positions and advance counts; all interleavings of draw, advance, shuffle, bounded draw and re-seed",
 "Tests check the first draws and one shuffle of a fixed seed; advance is never called and block edges are reached once.",
 ["mersenne_twister/mt.py"],
 [("block regeneration and tempering","MersenneTwister.shuffle, next"),("block-wise advance","MersenneTwister.advance"),("seeding","re_init")],
 [("state,index","block and position in it","MersenneTwister.state/.index")],["every draw, block contents after seeding and shuffling"])
p("C06","The SIMD-oriented Mersenne Twister reproduces SFMT19937 in both builds",
 "For every 32-bit seed, whether compiled to vector instructions or run on numpy, the SIMD-oriented Mersenne Twister yields the 64-bit SFMT19937 sequence, including the period certification of the seed, across every regeneration of its block. Advancing by n, from any position and for any n below 2^32, is equivalent to discarding n draws. Shuffling moves to the start of the next block.",
 ["inputs","histories","configurations"],"all seeds (both parities of the certification bit), positions, advance counts; both implementations",
 "Tests check the first draws and one shuffle of a fixed seed; the hand-written vector code is only compared on that state and advance is never called.",
 ["mersenne_twister/sfmt.py"],
 [("vector and scalar recursion","sfmt_shuffle, sfmt_shuffle_ir"),("seeding and period certification","SIMDFastMersenneTwister.re_init"),("block-wise advance","advance")],
 [("state,index","156 128-bit words and position","SIMDFastMersenneTwister.state/.index")],["every draw, block contents after seeding and shuffling"])
p("C07","TinyMT reproduces the reference TinyMT32 sequence from every seed",
 "For every 32-bit seed, TinyMT32 with the published parameters yields the reference 32-bit tempered sequence, at every position; every draw fits in 32 bits. Advancing or shuffling by n is equivalent to discarding n draws, and tempering without a shuffle repeats the last draw.",
 ["inputs","histories"],"all seeds, positions and interleavings of draw, advance, shuffle, temper, bounded draw and re-seed",
 "Tests check a few draws of one seed, for which the carry out of the tempering addition never matters.",
 ["mersenne_twister/tinymt.py"],
 [("state transition and tempering","TinyMersenneTwister.shuffle, temper"),("seeding and warm-up","re_init")],
 [("state","four 32-bit words","TinyMersenneTwister.state")],["every draw and the state after each call"])
p("C08","Xorshift128 and both Xoroshiro128+ streams follow their recurrences",
 "From every state, Xorshift128 and both Xoroshiro128+ generators yield the published sequence (xorshift 11/8/19; rotl 24 / shift 16 / rotl 37 with the result taken before the transition), the splitmix-seeded one starting from the two splitmix64 outputs of its seed and returning the upper 32 bits, the other from (seed, 0x82A2B175229D6A5B) unless a second word is given. Advancing by n is equivalent to discarding n draws.",
 ["inputs","histories"],"all seeds and states, all interleavings of draw, step back, advance, bounded draws and re-seed",
 "Tests check a few draws from fixed seeds; high-bit patterns, zero words, advance and default-argument handling on re-seeding are not reached.",
 ["xorshift/xorshift128.py","xorshift/xoroshiro128plus.py","util.py"],
 [("state transitions","next of each class"),("splitmix64 seeding","SplitMixXoroshiro128Plus.splitmix, re_init"),("rotations","util.py rotate_left_u64/rotate_right_u64")],
 [("state","2x64 or 4x32 bits","Xorshift*.state")],["every draw and the state after each call"])
p("C09","Compiled and numpy-only modes are observationally identical",
 "Any program over the public generators, cached rand lists, initial-seed hash, bit utilities, hash functions, encounter data and encounter generation produces the same values in the same order with numba and without it. In particular no value exceeds its width, and no operation succeeds in one mode and fails in the other.",
 ["programs","configurations","inputs"],"random programs over the whole public API with extreme and random arguments, executed once per mode and compared event by event",
 "The test-suite runs in both modes but on fixed points that do not touch most of the API (advance, cached lists, generation, data); integer promotion, overflow and indexing differ between numba and numpy only on particular values.",
 ["options.py","compilation.py","util.py","fnv.py","rng_list.py","sha1.py","gen3/wild_generator_3.py","gen3/state.py","lcrng/lcrng32.py","lcrng/lcrng64.py","mersenne_twister/tinymt.py","mersenne_twister/sfmt.py","xorshift/xoroshiro128plus.py"],
 [("explicit widths on every operation","np.uint32/np.uint64 casts throughout"),("mode switch","compilation.py optional_*")],
 [("event log","operation, arguments, result","recorded at the API boundary in each mode")],["return values, states, exceptions"])
p("C10","Generator objects are isolated, deterministic, and re-seed to a fresh start",
 "Two generator objects never influence each other, whatever the interleaving of their use, from one thread or several, and whatever classes or factory parameters they share; nor do they read or write process-wide random state. After any history, re-initialising an object with a seed makes it indistinguishable from a newly created one. Generating encounters or hashing seeds leaves the shared game data tables and every argument passed in unchanged, so repeating a call repeats its result.",
 ["schedules","histories","inputs"],"all interleavings of operations on several objects across threads, all re-initialisation points",
 "Tests use one object at a time, in one thread, and never re-use an object after re-initialising it mid-stream.",
 ["lcrng/lcrng32.py","lcrng/lcrng64.py","mersenne_twister/mt.py","mersenne_twister/sfmt.py","mersenne_twister/tinymt.py","xorshift/xorshift128.py","xorshift/xoroshiro128plus.py","rng_list.py","sha1.py","gen3/wild_generator_3.py"],
 [("per-object state arrays","__init__ of each class"),("full reset","re_init of each class"),("copies of shared tables","SHA1.__init__, GeneratorState.__init__")],
 [("state/seed/index","all state is per object","every generator class")],["values drawn by each object against its private model; digests of shared tables and arguments"])
p("C11","A cached rand list is an exact sliding window over its generator's stream",
 "For every generator class, draw method, element type and power-of-two size, a cached rand list always holds the last `size` values drawn from its generator, in order. Reading walks the window from its start and wraps around; advancing within the list skips reads; advancing the state drops the oldest values, draws as many new ones and rewinds reading to the new start; re-initialising refills the window with the next values of the generator as it then stands. A size that is not a power of two is rejected.",
 ["histories","inputs"],"all interleavings of reads, inner advances, state advances, re-initialisation and re-seeding of the underlying generator; sizes 1 to beyond 65536",
 "No test covers cached lists at all; the property is about unbounded operation histories.",
 ["rng_list.py"],
 [("ring buffer with head and pointer","build_rnglist SpecificRNGList"),("power-of-two mask","size - 1 masks")],
 [("list,head,pointer","ring buffer, its oldest element, next read","SpecificRNGList")],["value of every read against a queue model, and the generator's position afterwards"])
p("C12","Gen 5 initial seeds equal the SHA-1 derivation for every profile and moment",
 "For every Black/White/Black 2/White 2 version, language, console type, MAC address, reset kind, vframe, gxstat, timer0, vcount, buttons, date and time, the initial seed equals one BWRNG step of the first 8 bytes (little-endian) of the SHA-1 of the 13-word boot message, with BCD dates and the PM bit set only on DS and DSi. Precomputed intermediate values stay valid while only the time and the buttons change, however often and in whatever order, and re-hashing with unchanged input repeats the seed.",
 ["inputs","histories"],"all profiles and boot parameters, all sequences of setters, precomputation and hashing in which version, MAC, date and timer are unchanged since the precomputation",
 "The SHA-1 test is one list of fixed profiles with one time each; message words with high bits, midnight/noon edges, and re-use of precomputed values across a search are not covered.",
 ["sha1.py","util.py"],
 [("hash rounds and message schedule split between precomputation and hash","SHA1.precompute, hash_seed, calc_w, calc_w_simd"),("message setters","set_button, set_date, set_time, set_timer0"),("version constants","get_nazo")],
 [("data","80-word message schedule","SHA1.data")],["the 64-bit seed returned"])
p("C13","Bit rotations, byte swaps, hex formatting and FNV hashes are exact",
 "For every value, byte swapping reverses the four bytes, rotations by 1 to width-1 bits are the mathematical rotations and left and right undo each other, and hexadecimal formatting yields eight upper-case digits that parse back to the value. FNV-1 and FNV-1a equal the published 64-bit algorithms with the games' offset basis 0xCBF29CE484222645 for every ASCII string, the empty one included, and every name in the shipped name table hashes to its key under FNV-1a.",
 ["inputs"],"all 32/64-bit values, all rotation counts, all ASCII strings",
 "No test calls these functions directly.",
 ["util.py","fnv.py"],
 [("bit utilities","util.py change_endian_u32, rotate_*, hex_32"),("hashes","fnv.py fnv1_64, fnv1a_64")],
 [],["returned value"])
p("C14","Derived Pokemon attributes follow the games' formulas for every PID and IV set",
 "For every PID, IV set, level, base-stat line, trainer value and gender ratio, the derived gender, shininess (square, star, none), nature, ability, stats with the nature's modifiers, hidden-power type and power, and characteristic equal the games' integer formulas (Shedinja's fixed single hit point, which no wild search can meet, is not modelled). The textual form shows exactly those values.",
 ["inputs"],"all PIDs, IV sets, levels 1-100, species, natures, trainer/secret id values",
 "Nothing in the test-suite touches derived attributes; off-by-one thresholds, rounding and tie-breaking matter only for particular values.",
 ["gen3/state.py","gen3/util.py","util.py","data/__init__.py"],
 [("attribute derivation","State.update_stats, GeneratorState.__init__, csv"),("gender/shiny/letter rules","gen3/util.py"),("nature modifiers","util.py NATURE_MODIFIERS, compute_stat")],
 [("state fields","pid, ivs, level, stats, nature, ...","GeneratorState")],["every public field and the text form"])
p("C15","Gen 3 wild searches return exactly the encounters the game's call order gives",
 "For every seed, delay, advance range, encounter area, encounter type, lead, game and method 1, 2 or 4, the wild search returns, in order and with nothing missing, repeated or extra, exactly the encounters that replaying the game's RNG call order from each advance produces: rock-smash check, lead-influenced or table slot, level with pressure, cute charm, safari block, synchronize and nature, PID reroll until nature, gender and Unown letter match, then IVs. Splitting an advance range into parts and joining the results changes nothing.",
 ["inputs","histories"],"all seeds, ranges, areas, encounter types, games, methods and leads",
 "Nothing in the test-suite runs the generator; its paths depend on lead, game, area and PID rerolls.",
 ["gen3/wild_generator_3.py","gen3/encounter_area_3.py","gen3/state.py","gen3/util.py","lcrng/lcrng32.py"],
 [("call order","WildGenerator3.generate"),("per-advance restart","main generator stepped once per advance, second one re-seeded from it")],
 [("rng, go","frame position and per-encounter position","WildGenerator3.generate")],["every field of every returned state"])
p("C16","Gen 3 slots, levels, rates and lead effects match the games' published odds",
 "Over all 65536 draws, each encounter type selects its slots in exactly the published percentages (20/20/10/10/10/10/5/5/4/4/1/1 in grass, 60/30/5/4/1 when surfing or smashing rocks, 70/30, 60/20/20 and 40/40/15/4/1 for the rods) from the slot list of that type. Levels always lie in the slot's range, every level being reachable; pressure only raises them. Magnet Pull and Static leads see exactly the slots holding a species of that type, and encounter rates and safari areas are those of the area and encounter type asked for.",
 ["inputs"],"all 16-bit draws, all encounter types, all areas and slots of all five games, all leads",
 "Not covered by any test; a table off by one shifts one draw in a hundred.",
 ["gen3/encounter_area_3.py","data/encounter/encounter_area_3.py"],
 [("slot tables","compute_table, *_TABLE"),("slot and level selection","calculate_hslot, calculate_hslot_lead, calculate_level"),("type filter, rates, safari","get_modified_slots, get_encounter_rate, is_rse_safari_zone")],
 [("slot tables","draw modulo 100 to slot","gen3/encounter_area_3.py")],["slot and level returned, draws consumed"])
p("C17","Loaded Gen 3 encounter tables say exactly what the shipped data files say",
 "For each of the five Gen 3 games, every used map's encounter rates, level ranges, species and Unown letters, for every encounter type and slot, equal those of the shipped data file for that game's version only. Locations number the maps in file order; unused areas and duplicate Altering Cave sets stay empty and unnamed; map names read as cleaned text. First load and reload from cache agree.",
 ["inputs","configurations"],"every map, encounter type and slot of every game, on first load and from cache, compiled and uncompiled",
 "No test loads encounter data.",
 ["data/encounter/__init__.py","data/encounter/encounter_area_3.py","data/util.py","data/__init__.py"],
 [("decoder","load_encounter_3, clean_map_string"),("record layout","EncounterArea3, Slot3")],
 [("encounter tables","one record per map","ENCOUNTER_INFORMATION_GEN3, MAP_NAMES_GEN3")],["every field of every record"])
p("C18","Legends Arceus tables decode faithfully and slot choice follows the weights",
 "Every Legends Arceus encounter table, slot, spawner, multiplier and outbreak group decodes to the values stored in the shipped binary files, with level overrides, alpha level boosts and species fallback multipliers applied as specified, under the table's own id. Choosing a slot with a draw in [0,1) for any time and weather picks slot i exactly when the draw lies in slot i's share of the summed weights (up to single-precision rounding next to a boundary), and never a zero-weight slot.",
 ["inputs","configurations"],"all tables of all five areas, all times and weathers, all draws",
 "No test loads the data or chooses a slot.",
 ["data/encounter/__init__.py","data/encounter/encounter_area_la.py","data/fbs/encounter_la.py","data/fbs/flatbuffer_object.py","compilation.py"],
 [("table baking","load_encounter_tables_la"),("weighted choice","EncounterAreaLA.calc_slot"),("schemas","data/fbs/encounter_la.py")],
 [("slots","weights, levels, forms per table","EncounterAreaLA.slots")],["every decoded field; slot returned per draw"])
p("C19","The FlatBuffer reader returns what was written, and the default when absent",
 "For every well-formed FlatBuffer, each scalar, enum, string, nested object, vector and array read returns the value written for that field, and the caller's default when the field is absent - whatever the field order, absent fields, padding, vtable sharing or nesting of the buffer. Sequential reads consume one field each, and dumping writes the buffer back unchanged.",
 ["inputs","programs"],"all schemas of scalar, string, object and array fields; all subsets of present fields; all values including extremes",
 "No test reads a FlatBuffer; the shipped files exercise only one writer's layout and rarely an absent field.",
 ["data/fbs/flatbuffer_object.py","data/fbs/encounter_la.py"],
 [("field lookup","FlatBufferObject.read_*"),("field counter","read_init_*, read_init_padding")],
 [("counter","next vtable slot","FlatBufferObject._counter")],["each value read"])
p("C20","Each game resolves to its own personal table, decoded at the right offsets",
 "Every game is a distinct flag, and looking up its personal table yields that game's data - never another game's - or NotImplementedError when the package has none (the compiled-code lookup does so for the Gen 3 games). Every row and field (stats, types, abilities, gender ratio, items, forms and the rest) equals the bytes of the shipped file at the published offset for that generation, and combined version flags resolve to a member of the combination.",
 ["inputs","configurations"],"all games, all rows and fields of all tables, both lookup functions, compiled and uncompiled",
 "No test looks at personal data.",
 ["data/personal/__init__.py","data/personal/personal_info.py","data/util.py","enums/game.py"],
 [("record layouts","personal_info.py dtype dataclasses"),("lookup","get_info_table, get_info_table_3"),("flags","enums/game.py Game")],
 [("tables","one record array per game","PERSONAL_INFO_*")],["every field of every row"])
p("C21","The encounter cache never changes results, whatever state a crash left it in",
 "Importing the encounter data gives the same tables whether its cache is absent, complete, empty, truncated at any byte by a crash or full disk, replaced by garbage, unreadable, unwritable, or written at the same moment by other processes, in either mode. After such an import the next ones succeed as well.",
 ["crash_points","fault_sequences","schedules","configurations"],"crashes at any byte of any cache write, any cache file contents that do not parse as a saved table, concurrent first imports, compiled and numpy writers and readers",
 "No test imports the encounter data; crashes, full disks and concurrent imports are not simulated.",
 ["data/encounter/__init__.py"],
 [("pickle cache","pickle_cached"),("mode-independent encoding","encounter_tables_la_encode/decode")],
 [("cache files","pickles in the user cache directory","pickle_cached")],["digest of the loaded tables, exit status of the import"])
p("C22","Compiled code never touches memory outside its arrays or reads it uninitialised",
 "In compiled mode no generator, cached list, hash or encounter operation, in any reachable state and with any in-range argument, reads or writes outside its arrays, whether by indexing or in the hand-written vector code. No result depends on the contents of uninitialised memory.",
 ["inputs","histories"],"all histories of operations, under index checking, guard pages on either side of the state and different heap fill patterns",
 "The test-suite runs compiled code without bounds checks; an out-of-range access usually goes unnoticed and is masked by what lies next to the array.",
 ["mersenne_twister/sfmt.py","mersenne_twister/mt.py","mersenne_twister/tinymt.py","rng_list.py","sha1.py","xorshift/xorshift128.py","xorshift/xoroshiro128plus.py","gen3/encounter_area_3.py","gen3/wild_generator_3.py"],
 [("index ranges","index wrap at 624; masks & (size-1); slot tables of 100"),("unchecked vector accesses","sfmt_shuffle_ir offsets"),("complete initialisation of np.empty buffers","__init__/re_init of each class")],
 [("state arrays","fixed-size buffers","every generator class")],["faults, IndexErrors, canary bytes, result digests across fill patterns"])
p("C23","The mode switch is honoured and degrades safely when numba is missing",
 "Only the value TRUE, or no value, of the mode variable selects compiled mode; any other value selects numpy-only mode without importing numba, and both offer the same public names. If numba is not installed the package falls back to numpy-only mode, with a logged warning only when compiled mode had been asked for, and works in full. Decorators usable with or without arguments behave the same in both modes.",
 ["configurations"],"all values of the mode variable, numba present or absent, any import order of the submodules",
 "The test runner sets exactly two values with numba installed, and imports modules in one order.",
 ["options.py","compilation.py","patch.py","__init__.py","rng_list.py","mersenne_twister/sfmt.py"],
 [("switch","options.py USE_NUMBA"),("fallbacks","compilation.py else branch")],
 [("mode","compiled or numpy-only","options.USE_NUMBA")],["loaded modules, log records, types of public objects, results"])
p("C24","Compiled callers get the same values as interpreted callers",
 "A user's own compiled function or class that draws, jumps, advances, re-seeds, hashes, searches, looks up data or chooses slots with this package's objects gets exactly the values the same source gets when the interpreter runs it, and those are the values the object is specified to give. This holds whether arguments are given as the documented types, as wider integers or as integer literals in the source, and whether the object was built outside or inside the compiled code, kept in a list or in a user's class, or handed back and forth between compiled and interpreted code in mid-stream. Only default constructor arguments, which the compiler does not offer, are excepted.",
 ["programs","inputs","histories"],"all caller programs over the public operations of generators, cached lists, hashes, bit utilities, searches and slot tables; all argument types above; all points of handover between compiled and interpreted code",
 "The tests call the compiled classes from the interpreter only, so every argument arrives with one type and no caller is ever compiled; type inference inside a compiled caller (mixed signed and unsigned operands, literals) takes other paths.",
 ["compilation.py","lcrng/lcrng32.py","lcrng/lcrng64.py","mersenne_twister/mt.py","mersenne_twister/sfmt.py","mersenne_twister/tinymt.py","xorshift/xoroshiro128plus.py","xorshift/xorshift128.py","rng_list.py","sha1.py","util.py","fnv.py","gen3/wild_generator_3.py","gen3/encounter_area_3.py","data/encounter/encounter_area_la.py"],
 [("compilation wrappers","optional_njit, optional_jitclass, TypedList"),("typed arithmetic","explicit numpy casts of the generators' methods"),("compiled constants","const_jump, const_rand")],
 [("generator state","shared by both kinds of caller","every generator class")],["each value returned to the caller and the state left behind"])
p("C25","Record classes keep their declared layout, in compiled and interpreted code",
 "A record class a user declares with the package's decorator and helpers (scalars, unused bytes, arrays, grids, nested records, arrays of records, to any depth) is packed: its fields lie one after the other in the order declared, without padding, so bytes laid out that way can be viewed as its records. In compiled and in interpreted code alike, reading a field, by row or by column, by attribute or key, gives the value those bytes hold; writing one changes its bytes and no others; copying a record copies all of it. A class's array attribute keeps the elements, dimensions and order it was given, and refuses writes from its methods when declared read-only. The record classes the package ships have the fields and sizes their callers use, without overlaps or gaps. Shapes and element types numba itself does not support are excepted.",
 ["inputs","programs"],"all declarations of record classes and array attributes; all rows, fields, indices and values; compiled and interpreted readers and writers in any order",
 "The tests load the shipped tables only. Whether a nested or two-dimensional field lies at the right offset depends on the declaration, and the package patches numba's own record and array types for it.",
 ["data/util.py","patch.py","compilation.py","gen3/encounter_area_3.py","data/encounter/encounter_area_3.py","data/encounter/encounter_area_la.py","data/personal/personal_info.py"],
 [("record declarations","dtype_dataclass, dtype_array, unused_bytes"),("patched numba types","Record, Array, NestedArray in patch.py"),("array attributes","array_type, convert_to_numba")],
 [("record bytes","shared by compiled and interpreted code","numpy record arrays")],["field offsets and sizes, values read, every byte of the table after a write"])
p("C26","Numpy-only results do not depend on which admitted numpy is installed",
 "The package asks for numpy 1.26 or newer, and numpy 2 changed how integers and floats of different widths combine. In numpy-only mode every operation of the package, from importing its data to generators, jumps, bounded draws, cached lists, hashes, Gen 3 states and searches, encounter slots, record tables and FlatBuffer reading, gives the same specified results, and raises no error, under either major release, when its arguments have the documented types.",
 ["configurations","inputs","histories"],"numpy 1.26 and numpy 2; all public operations, arguments of the documented types and histories",
 "The tests run with the one numpy release of the lock file.",
 ["data/encounter/__init__.py","gen3/state.py","gen3/wild_generator_3.py","gen3/encounter_area_3.py","gen3/util.py","xorshift/xorshift128.py","lcrng/lcrng32.py","lcrng/lcrng64.py","mersenne_twister/mt.py","mersenne_twister/sfmt.py","mersenne_twister/tinymt.py","util.py","sha1.py","fnv.py","rng_list.py"],
 [("explicit widths","np.uint8/16/32/64 and np.float32/64 casts of the operands"),("admitted releases","numpy>=1.26 in pyproject.toml")],
 [("operand types","scalars of numpy and Python mixed in one expression","every numeric expression")],["every result of a program, exceptions included"])
p("C27","Results do not depend on the process the package runs in",
 "Every operation of the package, importing its data included, gives the same results and raises no error whatever the locale and default text encoding, the hash seed, the time zone, the working directory, whether Python drops documentation strings (-OO; checks made by assertions excepted), in whichever thread it runs or in a child forked after the import, whatever random, numpy printing, locale and garbage-collection settings the application has made for itself, and, in compiled mode, whatever processor and optimisation level numba generates code for.",
 ["configurations","inputs"],"locales, hash seeds, time zones, directories, interpreter flags, threads, forks, application settings, target processors; all public operations in both modes",
 "The tests run in one process with one environment: UTF-8, main thread, the host's processor, assertions and documentation on.",
 ["data/__init__.py","data/encounter/__init__.py","data/personal/__init__.py","rng_list.py","compilation.py","mersenne_twister/sfmt.py","gen3/state.py","gen3/wild_generator_3.py","data/encounter/encounter_area_la.py"],
 [("resource reading","importlib.resources with explicit encodings"),("hand-written vector code","sfmt_shuffle_ir"),("class building at run time","build_rnglist, factories")],
 [("process state","locale, flags, thread, seeds, target processor","the process")],["every result of a program, exceptions included"])
if __name__=="__main__":
    for x in P: print(json.dumps(x,ensure_ascii=False))
