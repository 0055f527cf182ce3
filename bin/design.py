"""Write /verif/DESIGN.md: the texts here and in design-rest.md, bounds from texts.py, numbers from the last evidence."""
import json,glob,os,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
d='''# Solver-based checking of bardecoder

## Method

All properties are decided by one engine, `symx` (/verif/symx, written for this task): a symbolic executor for the
LLVM IR that rustc produces from /repo's current sources, with Z3 as the deciding solver.

* `/verif/harness` is a crate with a path dependency on /repo's library. A harness function (`h_*`) makes some of its
  inputs symbolic (`rt.rs`: `bytes`, `byte(mask)`), calls bardecoder's **public API**, and states the property as
  assertions against an independent reference (a QR encoder and Reed-Solomon arithmetic in `spec.rs`, written from
  ISO 18004; integer arithmetic for the binarisation; an affine model for extraction; a finder look-alike oracle
  for detection). Concrete dimensions (version, level, mask, sizes, places) are harness *parameters*.
* Every run rebuilds the harness with fat LTO to LLVM IR (release profile with overflow checks and debug assertions on),
  so one module holds the real code of bardecoder **and** of what it calls in std and in `image` (formatting, UTF-8,
  collections, buffers). Nothing of the code is modelled by hand and nothing looks at source text: a refactoring
  only changes the IR.
* `symx` executes that module. Values are constants, vectors of boolean literals (an and/xor graph with hash consing),
  truth tables over few bits, linear sums of bit vectors, or floating point terms. Branches on symbolic conditions
  fork after the solver says both sides are feasible; states that meet again at a post-dominator are merged where the
  job asks for it (`merge=1`). Panics, failed assertions, memory errors and overflow checks are reachability
  queries: *unsat on all paths* = holds for every value of the symbolic inputs; *sat* = a counterexample.
* `bin/plans.py` lists the jobs of each property (harness, parameters, symbolic masks) for the quick and the thorough tier,
  seeded by VERIF_SEED; `bin/run.py` runs them on all cores within a time budget (70 s quick, 1500 s thorough).
* A counterexample is **replayed natively** (harness compiled by the same toolchain, `replay.rs` feeding the solver's bytes)
  and only then reported: `VIOLATION property=... replay=/verif/evidence/Cxx-replay.sh`, a script that rebuilds and reruns it.
  If the native run does not reproduce it, the check says NO ANSWER and exits 2 (executor bug), never 1.
* In the other direction up to 60 (thorough: 2000) finished paths of every run are replayed natively with a solver model
  of their path condition; a native failure on a path the executor called fine is NO ANSWER, too.

### What the solver decides, and where simplification does

The and/xor graph simplifies while it is built; an assertion whose condition has become the constant *true* that way never
becomes a query. Evidence counts both (`assertions_by_solver`, `assertions_by_simplification`). Conjunctions over at most 16
bits are decided by truth table *and* by Z3 (a disagreement ends the job with an error). Where simplification
would decide everything (C12, C17, C23), the harness uses `check_bytes`/`check_floats`, which put the two sides to Z3
as one "can they differ" query without going through the simplifier's equality.

### Trusted base

* rustc/LLVM: the module is compiled from the sources (release profile, overflow checks on), the executor's reading of LLVM IR
  (cross-checked by the native replays), Z3 4.8.12.
* Build shim: `build.py` writes a manifest whose library *is* /repo/src/lib.rs with /repo's dependencies and features but
  without the file format codecs of the `image` crate, which bardecoder does not call except to save debug images. This
  makes the build four times faster. Consequence: writing a debug image always ends in `image`'s "unsupported format" error.
* Stubs in the executor: malloc/free never fail; `getenv` finds nothing; `mkdir` fails, or succeeds in jobs with `fs=1`; every other file
  operation fails; `write` succeeds; `getrandom` returns zeros; errno is a variable. Threads are not modelled (bardecoder has none).
* Reference encoder: compared during development with the repository's own test pictures and with published symbols.

### Kinds of answers

exit 0: nothing explored violates the property (jobs that ran out of time are listed as undecided in the evidence and are not
claimed); exit 1 + VIOLATION: reproduced counterexample; exit 2 + NO ANSWER: build failure, executor and native code
disagree, or fewer than 30% of the started jobs decided. Cheap jobs come first in each plan, so that code that has
become harder to decide still gets an answer.

## Properties: encoding, bounds, cost

Statements are in properties.jsonl. Bounds are those of the quick tier unless said otherwise; "outside" is not claimed. Numbers are from
one quick run on 8 cores (build about 8 s included): jobs / paths / solver queries / seconds.

'''
MISSED={}
import sys
sys.path.insert(0,'/verif/bin')
import texts
how={
"C01":"`h_clean`: the reference encoder lays out a symbol whose payload bits are symbolic; the decoder's syndromes over them are proved zero on the spot (linear codes over GF(2) stay canonical in the xor graph), so that one path carries all payloads of a job. The text is compared character by character.",
"C02":"`h_format`: all 15+15 format modules are `valid word xor symbolic flips`; an assumption bounds the number of flips (population count as a symbolic sum). The decoder's error location runs on symbolic modules, forking on its branches. Beyond three flips in both copies the harness only demands the standard's outcome (error, or the text read under the format word that lies within three flips).",
"C03":"`h_damage` 3: `code words xor damage`, damage partly symbolic (values, or the place through a symbolic selector). The real Peterson-Gorenstein-Zierler decoder runs on field elements as truth tables over the symbolic bits.",
"C04":"`h_damage` 4: as C03 with more damage than the capacity. If decoding succeeds, the returned text is encoded again and every block must lie within the capacity of what was read; and a block whose distance to the clean word excludes any other code word in reach must give an error.",
"C05":"`h_damage` 5: the four numbers of QRInfo against counts that the harness computes from the same symbolic damage; `heavy` jobs damage every block of the largest symbols.",
"C06":"`h_damage` 6, `h_agree_format`, `h_content` in two-decoder mode: the results of both decoders on the same symbolic grid must be equal, text for text or message for message.",
"C07":"`h_segments`: segments with symbolic digits/characters/bytes, written bit by bit by the reference encoder, with every count field width; padding, terminators and the rest of the symbol varied.",
"C08":"`h_content`: arbitrary data codewords (symbolic bits in mode, length, groups, values) compared with a reference interpreter of the data stream (`util.rs`/`decode.rs`), error or text.",
"C09":"`h_charset`: fully symbolic bytes in a byte segment; std's UTF-8 validation and encoding run symbolically; reference = the rule of the statement.",
"C10":"`h_grid`: arbitrary grids with symbolic modules and every version number; any panic, overflow or out-of-bounds access is a violation. `h_upstream`: symbolic error messages are returned unchanged.",
"C11":"`h_chomp`: symbolic data, symbolic request widths (forked), both widths of request; a bit-exact reference reader that only looks at the unread position.",
"C12":"`h_index`: every pixel symbolic, every coordinate, in one solver query per grid.",
"C13":"`h_prep` without the reference: sizes, symbolic block parameters, all pixels symbolic; size, values and absence of panics.",
"C14":"`h_prep` with the reference: block sums are linear forms in both implementation and reference; the threshold comparison is decided on them (floating point mean against integer cross-multiplication by monotone conversion, proved by Z3's floating point theory on demand).",
"C15":"`h_locate`: pictures with symbolic data modules at a given version, scale, margin, turn, also with large one-colour areas. Exactly one location with exact version and corners within half a module is demanded. An oracle (`excused` in img.rs) looks at the picture itself: a *missing* location is excused only if something other than a finder resembles one within seven modules of a true finder centre; an *additional* one only if three look-alikes (or finders) other than the symbol's own three lie like the finders of a symbol. The oracle over-approximates the detector's tolerances and reads them off the picture, not off the code.",
"C16":"`h_scan`: small pictures with all pixels symbolic; larger ones with finder patterns (exact, distorted, inverted, cut) and rectangles present or not by symbolic bits; sanity of each location in the statement's terms.",
"C17":"`h_extract`: all data modules symbolic; every module of the grid equals the symbol's, one solver query per job.",
"C18":"`h_bounds`: symbolic coordinates (steps from 1e-3 to 1e300, extremes), degenerate images, cut symbols, bars that run from the alignment pattern to an edge; absence of panics, completeness of the grid, and for version 1 that a grid clearly past the right/bottom edge is not returned.",
"C19":"`h_pipe`: mock components that record calls and return symbolic outcomes/bytes; call order, arguments (pixel by pixel) and results are asserted.",
"C20":"`h_builder`, `h_defaults`: symbolic sequences of settings on the builder; marks identify which component ran; missing roles must panic.",
"C21":"`h_picture`: symbolic payload bits drawn to an RGBA picture, through `default_decoder` and `default_decoder_with_info`, same oracle as C15.",
"C22":"Module `dbg`: the library compiled twice in one module, with and without `debug-images`; both run on the same symbolic picture (families of C15, C16, C18) and every field of every result must agree bit by bit. File system stubs with and without directories that can be made.",
"C23":"`h_point`: all operands are symbolic 64-bit floats; equality of the results (NaN = NaN) asked of Z3's floating point theory.",
"C24":"`h_several`: two to four symbols of different sizes and orientations in one picture, some modules (or payload bits) of each symbolic; one location per symbol, or every text among the default decoder's results. Oracle as for C15.",
"C25":"`h_slanted`: every pixel has the colour of the (symbolic) module its centre lies in, for a sampled angle, scale and place; one solver query says that every module of the extracted grid equals the symbol's.",
"C26":"`h_slanted` with detection: one to three symbolic modules, sampled angle up to five degrees, scale and place. Oracle as for C15.",
"C27":"`h_function`: all function modules symbolic at once (one path carries all their values, since nothing may branch on them), or a few symbolic and the others at random values; with and without damaged codewords. The text, level and error count are those of the undamaged function patterns.",
"C29":"`h_slanted` with the default decoders: payload bits symbolic, sampled real scale, place and angle; the text and the four numbers must come out. The directed jobs are the counterexamples that led to fix 0706ce5.",
"C30":"`h_kinds`: the same (partly symbolic) pixels as a DynamicImage of each kind, as a part of a larger picture with noise around it, and as an image type of the harness that asserts its bounds; binarised and compared with C14's reference, or decoded.",
"C28":"`h_again`: sequences of calls of the same objects, the earlier ones with symbolic modules or pixels, some of them garbage; after each history a clean input must give what C01, C05, C14, C15, C17, C21 say. Statics and thread locals of the code live in the executor's memory like any other object.",
}
for p in props:
    i=p['id']
    try:
        v=json.load(open('/verif/evidence/%s.json'%i)); c=v['coverage']
        n='%d / %d / %d / %.0f'%(c['jobs_decided'],c['states'],c['queries'],v['wall_s'])
    except Exception: n='-'
    d+='**%s %s** (%s)\n%s\n*Bounds:* %s.\n*Outside:* %s.\n\n'%(i,p['title'],n,how.get(i,''),texts.BOUNDS[i],texts.OUTSIDE[i])
rest=open('/verif/bin/design-rest.md').read() if os.path.exists('/verif/bin/design-rest.md') else ''
t='| bug | caught by the quick check of | needs |\n|---|---|---|\n'
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); b=f.split('/')[-2]
    t+='| %s | %s | %s |\n'%(b,m['property'] if b not in MISSED else 'none ('+MISSED[b]+')',m['needs'])
open('/verif/DESIGN.md','w').write(d+rest.rstrip()+'\n\n'+t)
