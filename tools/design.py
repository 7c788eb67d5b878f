import json,os,glob
head='''# Runtime monitoring of libopenraw: design

Family: **runtime monitoring and sanitizers**. Every property is decided by an
oracle that watches executions of the real library, built from /repo's working
tree with debug assertions and integer-overflow checks enabled (and, for the
memory and thread properties, with AddressSanitizer / ThreadSanitizer). Nothing
is modelled, and no check looks at the text of the source. All 25 properties are
claimed; none is "not applicable".

## The machine

`/verif/harness` is one Rust crate (`orv`, path dependency on /repo, empty
workspace). `check.sh <ID> <tier>` builds it and runs `orv <ID>`, which writes
`evidence/<ID>.json`. `setup.sh` only warms the builds.

* **Hook.** One: `cfg(orv_hooks)` makes `ReadAndSeek` public (commit 8c79dcb), so
  that the harness can hand the library a reader of its own (failing, short,
  slow, counting). With the guard off nothing changes.
* **Workload: the file factory** (`src/gen`, `src/tiffb.rs`, `src/exp.rs`). There
  are no RAW samples in this sandbox, so for each of the 13 formats (DNG, ERF,
  MRW, NEF, ARW, PEF, ORF, RW2, RAF, CR2, CRW, CR3, JPEG) a generator turns
  (seed, index) into a complete, well-formed file **and** the independent
  description of what is in it: every directory entry, dimensions, the sensor
  samples, levels, crops, white balance, previews, identity, matrices. The
  encoders (lossless JPEG with every predictor, Nikon's six Huffman tables and
  curves, Pentax, Olympus, Panasonic blocks, Canon CRW tables, Fujifilm lossless
  and lossy, Sony's cipher, bit packers) are written from the definition of the
  format (dcraw, ITU T.81, TIFF 6, DNG 1.6, ISO 14496-12, ExifTool's
  documentation), not from the library. The layout is randomised: byte order,
  order of the blocks, padding, inline or at an offset, number of strips/tiles,
  chains and nested containers.
* **Observation** (`obs.rs`): each public query is a `Q`; an answer is recorded
  in full (data by hash and length). These event logs are what oracles judge.
* **Oracles.**
  *Fidelity* (M*, D*, `checks/fid.rs`): the log against the generator's
  description, field by field, nothing more and nothing less.
  *Differential* (S03, S04, S05, C01): the log against the log of the same bytes
  through another source, order, history, thread, ABI, or a faulty reader.
  *Monitors* (S01, S02): panic hook, process death, sanitizer, accounting
  allocator (`alloc.rs`: live bytes per thread, fill pattern of fresh memory),
  operation and byte counters of the reader, CPU time per case (`watch.rs`).
* **Hostile workload** (`hostile.rs`, `amp.rs`): (a) byte-level mutants aimed at
  the places the library was *traced* reading; (b) structural mutants, for which
  the TIFF writer stores arrays with another count or type than it has, down into
  nested directories and maker notes; (c) directory soups; (d) junk behind
  signatures; (e) amplifiers: cycles, shared ranges, absurd counts.
* **Supervision** (`watch.rs`): the check runs in a child; a crash, an abort or a
  case over 60 s of CPU is attributed to the case in flight and reported as a
  violation with its input saved in `replay/`.
* Deterministic in `VERIF_SEED` and bounded by counts, not time. A run that saw
  too few events (minimums per counter) is an error (exit 2), not "held".
* A violation that matches a `known:` line of known_findings.txt is printed as
  KNOWN-FINDING. There is none at present: all defects found were repaired.

`orv FILE path` prints all the answers for a file; `orv GEN KIND INDEX FILE`
writes a generated file; `dev.sh` runs only some generators;
`ORV_CASE`/`ORV_BT`/`ORV_ALL` help to look into a case.

## Properties

Quick tier at ordinary load; thorough is 40 times the cases (S05 and the
sanitizer stages too). Evidence files have the number of events and distinct
cases seen by each monitor.

| id | decided by | over | quick |
|---|---|---|---|
| S01 | panic hook, overflow checks, process death; then the same under ASan with 1/10 of the cases | hostile families, all queries in random order on one handle | 137k evaluations, 20 s + ASan |
| S02 | allocator, reader and CPU accounting | hostile families and amplifiers up to 1 MiB | 94k queries, 20 s |
| S03 | equality of logs: memory/path/short reads, fill pattern of fresh memory, order of the queries, repetition, fresh handle per query | well formed and hostile | 34k comparisons, 17 s |
| S04 | healthy log against the log with an injected fault (error, sticky end of file, partial read, cut; once, several times or for good; at every kind of operation) | well formed, all formats | 20 s |
| S05 | logs of 2..8 threads against the single-threaded log; ThreadSanitizer over the same with 1/4 of the runs | formats with parallel code preferred (tiled LJPEG, interlaced Olympus, Fuji strips), barrier start, a reader that yields | 160 runs + 40 TSan, 100 s |
| M01 | tables of extension, MIME, signature | hint x name x leading bytes x length | 6 s |
| M02 | every entry of every directory (iteration, lookups by tag and by name, counts, types, absences) against `reftiff.rs`, a reader of TIFF that shares nothing with the library or the generators; what the generators stored; 32 forms of maker notes with their own bases and names | all formats | 40k files of each of 13 formats, 8.7M entries listed, 25 s |
| M03 | ids against the C header, table of the models, matrices against dcraw's | all formats, all models of the tables | 40k files |
| M04 | list, sizes, bytes, choice by size; decoys that must not be listed; previews counted past the end of the file | all formats | 40k files |
| D01 | every sample, dimensions, levels, mosaic against the generator | uncompressed and packed data in nine formats | 250k files, 16 s |
| D02 | every sample against the T.81 encoder; truncation and 21 kinds of malformed streams refused | LJPEG streams | 10 s |
| D03..D12 | every sample and every descriptive field against the generator | per-format generators | 40k..150k files each, 3..16 s |
| R01 | f64 reference renderer within one unit, determinism, purity | RawImage API directly, and decoded files | 6 s |
| R02 | 128-bit oracle for crops, definition of the patterns, shadow state of the setters | enumerated and random | 6 s |
| C01 | a C client (csrc/capi.c, built with clang against the public headers) whose answers are compared with the Rust API; canaries, leak monitor, NULL arguments; ASan stage | all formats, hostile | 50 s cold |
| T01 | the tools' processes: printed lines, exit status, files read back, against the library's answers | all formats, hostile, 1..4 files at once, all options, files missing | 24k processes, 9 s |

### Why this reaches what the tests cannot

The 125 tests exercise fixed inputs; the properties quantify over files, readers,
schedules and orders. The checks see some 10^5 distinct files a run, each fully
described, and compare everything that can be asked about them. Faults are put at
each operation rather than at a few; the allocator and reader monitors measure
what a test has no notion of; and schedule-dependent code is watched by TSan,
which needs only that both accesses happen, not that they collide.

### Bounds and assumptions

* The generators are assumed right about the formats. Where dcraw, the
  specification and the library agree the point is judged; where sources
  conflict or the format is ambiguous, it isn't (list below). Real camera files
  were not available.
* Images are small (a few to some hundred pixels a side, 1 in 60 is 12 times
  larger; Fuji compressed needs w >= 768). Files all over 4 GiB are
  (1 in 16 of TIFF based ones, a few CR3): their bytes are served by a reader with
  a gap of 2 to 4 GiB between two blocks, or a `free` box of more than 4 GiB, so
  32 bit truncation and sign extension of offsets show. Only M and D checks use them.
* S02's bounds: memory 32 MiB + 1000 x len for image queries, 1 MiB + 200 x len
  for others; 60000 + 16 x len operations; 1 MiB + 200 x len bytes read; 2 s of
  CPU. The constants are several times what healthy files need; a super-linear
  blow-up of the amplifiers goes far past them.
* S04: a detail that is optional or has a default in the format (crop, levels,
  identity, white balance) may fall back; accepted by class (absent, same value
  for all channels, whole area, any camera/same vendor per format), never by
  pinning a value. Thumbnails cut at the end of the file are accepted as parts.
* S05 samples schedules, it doesn't enumerate them (loom/shuttle can't be put
  under rayon and std locks without changing the code).
* MSan and Miri were tried: MSan needs the whole of std and C dependencies and
  only finds what S03's fill patterns already find (three defects); Miri is
  three orders of magnitude slower and the unsafe code is four short places that
  ASan covers.

### Not judged (deliberately)

* Nikon type-1 maker notes; Olympus second field when the first is an exact
  multiple of 2048; white levels of the ARW table that are 0; CR2 dimensions and
  whites with decompression skipped; CR3 blacks and whites; RAF `compression`;
  CRW record 0x920a when the camera settings have no units; big-endian CRW by
  content; Canon `lowbits` heuristics on ambiguous data; trailing bytes after 8
  and 16 bits samples (delivered as extra samples, harmless: left).
* 12/14 bits data whose byte count is exactly 2 x pixels is read as 16 bits by
  design; the generators stay clear of coincidences. A non-CR2 TIFF with
  "CR\\x02" at offset 8 by chance is skipped.
* C01: the header declares functions that the library doesn't have
  (or_mosaicinfo_get_size/_set_size, or_bitmapdata_bpc,
  or_rawdata_get_rendered_image, raw_* I/O): a link error for a caller, not a
  behaviour at run time. Out-of-range enum values are a caller's error.
* Left alone: `Type::from("RW"/"JPEG"/"TIF")`; only ff d8 ff db recognised as
  JPEG by content; RW2's embedded JPEG preview assumes Exif at +12.

## False alarms met while building, and what was done

* M01 read "variants are types of their own": the library reads SR2 as ARW, NRW
  as NEF, GPR as DNG, RW as RW2. The statement now says so.
* S04 first demanded the same data type for PEF data that couldn't be
  decompressed: stored bytes in place of samples are accepted now ("left
  compressed").
* D07: a direct Nikon curve saturates past its table (dcraw does the same): the
  generator was wrong in continuing it as identity.
* D02: restart intervals must be whole rows for predictors at the start of a row;
  the encoder was wrong.
* D11: 14 bits padding ambiguity with tiny images: w >= 8, h >= 3.
* M02: CR3 has no metadata iteration: the statement says so.
* D06: a track's `hdlr` must precede its `stbl`: the statement says so. One file in 8 is also damaged: cut short,
  or with the size of a box or the count of a table changed; the answers are judged by S04's rules against those
  of the whole file. The raw data is that of the third track, so it isn't judged when a track is lost; the dump
  isn't either (it tells the sizes). A 64 bit size isn't damaged into a 32 bit one, nor the other way round (the
  rest of the box would be elsewhere).
* D08, D09: one compressed file in 8 has a stream too short to decode (down to the last byte missing): it has to be
  left compressed. Files are cut short as in D06.
* D01: padding after samples that are as wide as 16 bits can't be told from
  packed samples: excluded.
* S05 quick was too slow on a loaded machine: fewer runs.

## Defects found and repaired

%d repairs, one "fix:" commit each, listed with the property that showed them in
known_findings.txt (the checks report them again if they return). Most came from
the checks on first contact; later ones from seed sweeps of the hostile families
(e.g. 07d7a57, 736ba90) and from strengthening after a planted bug was missed.

## Planted bugs

In `seeded/` (none committed to /repo). "First" is whether the check caught it as
it was when the bug was planted; those missed led to the strengthening named.

| bug | property | needs | caught |
|---|---|---|---|
'''
notes={'ljpeg-restart-number':'D02, after malformed streams were generated','orf-last-bits':'D09, after streams too short by as little as a byte were generated','canon-aspect-short':'S01, after structural mutants (arrays cut short) were added','nef-curve-one-element':'S01 after short direct curves were generated; D07','nef-curve-ceiling':'D07, after short direct curves','orf-static-row':'S05 after interlaced ORF was preferred; D09','cr3-tracks-stop':'D06, M04, after 3-6 tracks of any kind','thumb-8rgb-exact':'M04, after decoy previews (`no_preview`)','cr2-first-black':'D04, after zero levels were generated','cr3-offset-32bits':'D06, after sparse files were added','leica4-note-base':'M02, after the maker note forms were added','wide-or-more':'D01, after too long strips were generated'}
rows=''
for d in sorted(glob.glob('/verif/seeded/*/')):
    i=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    rows+=f"| {i} | {m['property']} | {m['needs']} | {notes.get(i, m['property']+', first')} |\n"
n=sum(l.startswith('fixed:') for l in open('/verif/known_findings.txt'))
tail=open('/verif/tools/design_tail.md').read() if os.path.exists('/verif/tools/design_tail.md') else ''
open('/verif/DESIGN.md','w').write(head%n+rows+tail)
