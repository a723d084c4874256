import json
A='TLA+ specification of the decoder (spec/Decoder.tla) evaluated by TLC on the bytes of each stream; the recorded run of the real decoder must be a behaviour of it'
O='TLA+ state machine of the decoder object (spec/Object.tla); recorded call histories of the real decoder checked against it by TLC'
G='streams are behaviours of spec/Stream.tla drawn by TLC'
T={
'C01':A, 'C02':'scan scripts enumerated by TLC from spec/Scripts.tla; '+O+'; '+A, 'C03':'TLA+ model of the restart count-down (spec/Restart.tla) checked exhaustively, its cases run on the code; '+O+'; '+A, 'C04':'TLA+ model of the block geometry (spec/Geometry.tla) checked exhaustively; '+A+'; pixel relations by spec/PixelTrace.tla', 'C05':'recorded outputs checked by TLC against spec/PixelTrace.tla and spec/Object.tla',
'C06':'TLA+ model of the band queue (spec/Bands.tla) checked exhaustively; its schedules replayed in the real code; '+O, 'C07':O, 'C08':O, 'C09':O+'; '+A, 'C10':A+'; headers of spec/Headers.tla and all segment sequences of spec/Segments.tla up to a bound; '+O,
'C11':A+'; headers of spec/Headers.tla, all segment sequences of spec/Segments.tla and all code counts of spec/Huffman.tla up to a bound', 'C12':O+'; '+A, 'C13':'all code counts of spec/Huffman.tla up to a bound; '+O+'; '+A, 'C14':A+'; all orders of table definitions of spec/Segments.tla up to a bound; '+O, 'C15':'histories from spec/ApiGen.tla; '+O, 'C16':A, 'C17':A, 'C18':O+'; '+A, 'C19':'histories from spec/ApiGen.tla; '+O, 'C20':'histories from spec/ApiGen.tla; '+O,
'C21':'call histories recorded in three builds of the real decoder (ordinary, address sanitizer, an allocator with minimal alignment and non-zero memory), checked together against spec/Object.tla by TLC',
'C22':'call histories with the peak of heap memory recorded for each call, checked by TLC against the memory bound of spec/Object.tla; '+G,
'C23':A+' (its verdicts carry the kinds of error); headers of spec/Headers.tla',
'C24':'TLA+ model of restart intervals whose data ends early (spec/Cuts.tla) checked exhaustively, its cases run on the code; '+A}
N={
'C01':'Absolute: the expected samples are computed in TLA+ from the stream bytes alone. Bounded by the streams drawn (sizes mostly up to 48x40, some to 200x97).',
'C02':'Equality with the baseline coding of the same coefficients for scripts drawn from the scan grammar, and absolute comparison for a part of them. Trusts the encoder in lib only to produce legal streams.',
'C03':'Equality across restart intervals, absolute comparison for a part, every interval 0..23 for some images.',
'C04':'Absolute comparison over sizes 1..49 squared, row tails in every colourspace, crops, very wide and very high images.',
'C05':'All colour pairs on a grid of constant blocks (16 images x 4096 triples) and random images; bound +-2 as stated.',
'C06':'Design model exhaustive for its constants; real pool with 1..61 threads; replayed schedules use a stand-in for scoped_threadpool; concurrent decoders in one process.',
'C07':'Byte equality of five configurations per stream, also for coefficients far outside the range of 8-bit samples; only the SIMD paths this CPU has.',
'C08':'Damaged, spliced and random streams; a panic, abort or hang is an observation the specification does not allow. Release builds, and builds with overflow checks and debug assertions.',
'C09':'Limits at, below and above the size and the scan count; default limits with images of 16384/16385 and 63..191 scans.',
'C10':'Header reads judged from the bytes by Decoder.tla; equality with full decodes and with the plain coding.',
'C11':'44 kinds of fault applied to legal streams; that the result must be refused is decided by Decoder.tla from the bytes.',
'C12':'Strict and non-strict decodes of the same streams, stray and fill bytes, damaged streams.',
'C13':'Equality across eight families of Huffman tables, absolute comparison for a part.',
'C14':'Absolute comparison with decoy redefinitions in all slots, one coefficient at a time, every position; destinations shared by components that start in different scans.',
'C15':'Histories of calls drawn by TLC, each call also made on a new decoder.',
'C16':'Cuts at any byte of the entropy-coded data, progressive streams cut anywhere after the first scan header; verdict (must succeed / may fail / complete MCUs exact) from Decoder.tla.',
'C17':'Absolute comparison (bound +-1) with the filter in JpegCore.tla, SIMD and scalar.',
'C18':'Equality with the plain coding; absolute comparison for a part.',
'C19':'Histories mixing decode_file, decode_buffer and unreadable paths, in a scratch directory under /verif/build.',
'C20':'Histories over setters, option builders, getters and decodes.',
'C21':'What an address sanitizer sees, and what depends on alignment or previous contents of heap memory; stack reads of uninitialised memory are not seen. Streams: legal, damaged, arbitrary; sizes with every tail; large images.',
'C22':'Peak of the heap during each call, measured by the global allocator; stacks of worker threads are not counted.',
'C23':'The set of kinds allowed is computed in TLA+ from the bytes; 44 kinds of fault, bytes of headers replaced, all frame types, starts of streams, sequences of segments.',
'C24':'Every way to leave out MCUs in small images (the cases of Cuts.tla), random cuts of random images; the lost MCUs, and whether the decode must succeed, are worked out by Decoder.tla from the bytes.'}
m=dict(version=1,setup_cmd='python3 setup.py',checks=[dict(property=k,quick_cmd=f'python3 check.py {k}',thorough_cmd=f'python3 check.py {k} thorough',
  technique=T[k],level='model_checking',level_note=N[k]) for k in sorted(T)],not_applicable=[])
m['hooks']=dict(guard='--cfg zune_no_avx2',enable="RUSTFLAGS='--cfg zune_no_avx2' (lib/run.py, build('sse'))",source_commits=['c08f63c3ef5490816548a61954bdfc5735f4567a'])
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
