"""Which harness entries decide which property, and within which bounds."""
V = {}
def H(prop, src, units, entries, **kw):
    V.setdefault(prop, []).append(dict(src=src, units=units.split(), entries=entries, **kw))
def E(name, bounds='', fn=None, tiers=('quick', 'thorough'), **kw):
    return dict(name=name, fn=fn or name, bounds=bounds, tiers=tiers, **kw)
COMMON = ['libstdc++ shared-library parts, glibc iconv, zlib and the locale ("C") are modelled (model/rt.cc, model/env.cc)',
          'allocations above 4 MiB fail with bad_alloc', 'x86-64 layout, clang 18 -O1 IR of the current sources']
ASSUME = {}
def harnesses(prop, tier):
    r = []
    for h in V[prop]:
        h = dict(h); h['entries'] = [dict(e) for e in h['entries'] if tier in e['tiers']]
        r.append(h)
    return r
def assumptions(prop): return COMMON + ASSUME.get(prop, [])

CORE = 'scribbu charsets ostream framesv2 framesv22 framesv23 framesv24 id3v1 id3v2 id3v22 id3v23 id3v24 id3v2-utils mp3 winamp-genres'

H('P09', 'p09.cc', CORE, [
    E('h_syncsafe', 'all 64-bit values'), E('h_decode', 'all 5-byte strings'),
])
H('P01', 'p01.cc', CORE, [
    E('h_any22', 'ID3v2.2 tag, all bytes arbitrary, body of at most 9 bytes'),
    E('h_any23', 'ID3v2.3 tag, all bytes arbitrary, body of at most 12 bytes'),
    E('h_any24', 'ID3v2.4 tag, all bytes arbitrary, body of at most 12 bytes'),
    E('h_header', 'every stream of at most 12 bytes'),
    E('h_frame22', 'one frame of each kind, arbitrary size field, arbitrary body of 0..5 bytes, 0..2 bytes of padding'),
    E('h_frame23', 'one frame of each kind, arbitrary size field, arbitrary body of 0..4 bytes, 0..2 bytes of padding'),
    E('h_frame24', 'one frame of each kind, arbitrary size field, arbitrary body of 0..4 bytes, 0..2 bytes of padding'),
    E('h_flags23', 'text/ENCR/unknown frame, arbitrary flags and size, body of 0..8 bytes'),
    E('h_flags24', 'text/ENCR/unknown frame, arbitrary flags and size, body of 0..8 bytes'),
    E('h_ext23', 'extended header of 0..14 arbitrary bytes'), E('h_ext24', 'extended header of 0..12 arbitrary bytes'),
    E('h_encr23', 'two ENCR frames, each maybe encrypted with any method'), E('h_encr24', 'two ENCR frames, each maybe encrypted with any method'),
])
H('P02', 'p02.cc', CORE, [
    E('h_basic22', 'text frame in any encoding or unknown frame with 3 arbitrary bytes, maybe a second frame, padding 0..2, with and without unsynchronisation'),
    E('h_basic23', 'the same in ID3v2.3'), E('h_basic24', 'the same in ID3v2.4'),
    E('h_kinds22', 'one frame of each kind with arbitrary contents, maybe followed by another'), E('h_kinds23', 'the same in ID3v2.3'), E('h_kinds24', 'the same in ID3v2.4'),
    E('h_comm22', 'comment in any encoding, description and text of 0..1 characters'), E('h_comm23', 'the same in ID3v2.3'), E('h_comm24', 'the same in ID3v2.4'),
    E('h_flags23', 'every combination of frame flags and group'), E('h_flags24', 'the same in ID3v2.4, with or without the frame\'s own unsynchronisation'),
    E('h_zip23', 'compressed frame with 2 arbitrary bytes, maybe grouped'), E('h_zip24', 'the same in ID3v2.4'),
])
H('P02', 'p02b.cc', CORE, [
    E('h_new22', 'new tags: text, comment, user text, play count, rating, tag cloud, unknown frame with arbitrary contents, with and without unsynchronisation'), E('h_new23', 'the same in ID3v2.3'), E('h_new24', 'the same in ID3v2.4'),
    E('h_attr23', 'new tags: padding, flags, extended header with and without checksum'), E('h_attr24', 'new tags: padding and flags'),
    E('h_ext23', 'extended header with arbitrary contents'), E('h_ext24', 'every combination of extended header fields, footer'),
    E('h_pads', 'twelve sizes of padding between 127 and 4097 bytes, three versions'),
])
H('P03', 'p03.cc', CORE, [
    E('h_basic22', 'text frame in any encoding or unknown frame with 3 arbitrary bytes, maybe a second frame, padding 0..2, with and without unsynchronisation'),
    E('h_basic23', 'the same in ID3v2.3'), E('h_basic24', 'the same in ID3v2.4'),
    E('h_kinds22', 'one frame of each kind with arbitrary contents'), E('h_kinds23', 'the same in ID3v2.3'), E('h_kinds24', 'the same in ID3v2.4'),
    E('h_flags23', 'grouped frames'), E('h_flags24', 'grouped frames, frames with their own unsynchronisation'),
    E('h_zip23', 'compressed frame with 2 arbitrary bytes'), E('h_zip24', 'the same in ID3v2.4'),
    E('h_long22', 'frames of seven lengths between 127 and 512 bytes, first and last byte arbitrary'), E('h_long23', 'the same in ID3v2.3'), E('h_long24', 'the same in ID3v2.4'),
    E('h_single22', 'single frames of four kinds'), E('h_single23', 'the same in ID3v2.3'), E('h_single24', 'the same in ID3v2.4'),
    E('h_edit22', 'tag edited after its size was asked for'), E('h_edit23', 'the same in ID3v2.3'), E('h_edit24', 'the same in ID3v2.4'),
    E('h_ext23', 'new tag with extended header, any checksum, frames added after sizes were computed'), E('h_ext24', 'every combination of extended header fields, footer'),
    E('h_foot24', 'tag with footer'), E('h_padding24', 'padding 0..2'),
])
H('P04', 'p04.cc', CORE, [
    E('h_basic22', 'unknown frame with 4 arbitrary bytes, maybe a second one with 2, padding 0..1'), E('h_basic23', 'the same in ID3v2.3'), E('h_basic24', 'the same in ID3v2.4'),
    E('h_kinds22', 'one frame of each kind with arbitrary contents'), E('h_kinds23', 'the same in ID3v2.3'), E('h_kinds24', 'the same in ID3v2.4'),
    E('h_long22', 'frames of 255, 256 and 511 bytes, first and last byte arbitrary'), E('h_long23', 'the same in ID3v2.3'), E('h_long24', 'the same in ID3v2.4'),
    E('h_own24', 'two frames, each maybe with its own unsynchronisation'), E('h_ext23', 'extended header with any checksum'),
    E('h_resync', 'all strings of 0..7 bytes'),
])
H('P05', 'p05.cc', CORE, [
    E('h_text22', 'two rounds of size/write/needs query then set, texts of 0..2 characters of four scripts, by frame or by name'), E('h_text23', 'the same in ID3v2.3'), E('h_text24', 'the same in ID3v2.4'),
    E('h_comment22', 'two rounds of query then setting text or description, one-byte and Unicode forms'), E('h_comment23', 'the same in ID3v2.3'), E('h_comment24', 'the same in ID3v2.4'),
    E('h_count22', 'any 32-bit count, two rounds of query then counting up or setting another 32-bit count'), E('h_count23', 'the same in ID3v2.3'), E('h_count24', 'the same in ID3v2.4'),
    E('h_wide22', 'counters of 1..5 arbitrary bytes, counted up'), E('h_wide23', 'the same in ID3v2.3'), E('h_wide24', 'the same in ID3v2.4'),
    E('h_rating22', 'any rating and 32-bit count, address of 0..2 characters, one edit between queries'), E('h_rating23', 'the same in ID3v2.3'), E('h_rating24', 'the same in ID3v2.4'),
    E('h_cloud22', 'two edits among adding a key, adding a value, merging, updating, resetting, queries in between'), E('h_cloud23', 'the same in ID3v2.3'), E('h_cloud24', 'the same in ID3v2.4'),
    E('h_merged22', 'a cloud of two tags, into which (or in place of which) another is put, given as text in five forms with two arbitrary tags and two arbitrary values'), E('h_merged23', 'the same in ID3v2.3'), E('h_merged24', 'the same in ID3v2.4'),
    E('h_built22', 'texts and descriptions of 0..2 characters of three scripts, stored as Unicode'), E('h_built23', 'the same in ID3v2.3'), E('h_built24', 'the same in ID3v2.4'),
    E('h_parsed22', 'one frame of each kind with arbitrary contents and flags: what every accessor returns'), E('h_parsed23', 'the same in ID3v2.3'), E('h_parsed24', 'the same in ID3v2.4'),
])
H('P06', 'p06.cc', CORE, [
    E('h_one22', 'two frames of six kinds, then any of 13 edits at any place'), E('h_one23', 'the same in ID3v2.3'), E('h_one24', 'the same in ID3v2.4'),
    E('h_two22', 'one frame of four kinds, then any two of 13 edits'), E('h_two23', 'the same in ID3v2.3'), E('h_two24', 'the same in ID3v2.4'),
    E('h_three22', 'any three of 13 edits of an empty tag, three kinds of frames'), E('h_three23', 'the same in ID3v2.3'), E('h_three24', 'the same in ID3v2.4'),
    E('h_readin22', 'tag of two frames read from a stream, then any of 13 edits'), E('h_readin23', 'the same in ID3v2.3'), E('h_readin24', 'the same in ID3v2.4'),
    E('h_names22', 'any two of eight named fields set by name or by identifier, then maybe one deleted'), E('h_names23', 'the same in ID3v2.3'), E('h_names24', 'the same in ID3v2.4'),
    E('h_idents22', 'each of the 38 text frame identifiers set twice, written, read, deleted'), E('h_idents23', 'the same in ID3v2.3'), E('h_idents24', 'the same in ID3v2.4'),
])
H('P07', 'p07.cc', CORE, [
    E('h_copies22', 'up to two frames of four to six kinds, written before or not, copied in three ways, then any of 13 edits, a frame changed in place, padding changed or nothing, on either side, then either side dropped'), E('h_copies23', 'the same in ID3v2.3'), E('h_copies24', 'the same in ID3v2.4'),
    E('h_options22', 'tag read with any header options and extended header, one frame of each kind with arbitrary contents and flags'), E('h_options23', 'the same in ID3v2.3'), E('h_options24', 'the same in ID3v2.4'),
    E('h_self22', 'up to two frames, assigned to itself, then exchanged with another tag'), E('h_self23', 'the same in ID3v2.3'), E('h_self24', 'the same in ID3v2.4'),
    E('h_frames22', 'one frame of each of six kinds'), E('h_frames23', 'the same in ID3v2.3'), E('h_frames24', 'the same in ID3v2.4'),
])
H('P08', 'p08.cc', 'scribbu charsets id3v1', [
    E('h_read', 'every 128-byte and 355-byte tail, three ways of reading'),
    E('h_bad', 'any header bytes, tail short by 0..2 bytes'),
    E('h_new', 'new tag of each kind, any two setters, ASCII text of 0..91 characters with two arbitrary characters'),
    E('h_edit', 'arbitrary tail, any two setters, ASCII text of 0..91 characters with two arbitrary characters'),
    E('h_text', 'text of 0..3 printable ASCII characters'),
])
H('P18', 'p18.cc', CORE, [
    E('h_look_v2', 'every stream of 0..13 bytes, start position 0..2, four exception masks'),
    E('h_ends_in_v1', 'stream lengths around 0, 128 and 355, arbitrary bytes where a tag could start, four exception masks'),
    E('h_process_v1', 'stream lengths around 0, 128 and 355, arbitrary bytes where a tag could start, four exception masks'),
    E('h_find_v1', 'stream lengths around 0, 128 and 355, arbitrary bytes where a tag could start, four exception masks'),
    E('h_ctor_v1', 'arbitrary magic bytes, exact or short tail, four exception masks'),
    E('h_track', 'track of 0..5 arbitrary bytes with or without an ID3v1 tag, digest failing at any step'),
    E('h_maybe_v2', 'arbitrary magic, version and flags; empty tag with 0..8 bytes of padding'),
    E('h_indexed', '0..2 tags of any version, padding, footer; by index 0..2 and all together'),
])
H('P15', 'p15.cc', 'mp3', [
    E('h_header', 'all 2^32 frame headers, both constructors'),
    E('h_vbri', 'arbitrary VBRI header with at most two table entries of at most two bytes, eight frame layouts'),
    E('h_xing', 'arbitrary Xing/Info header and LAME tag id, eight frame layouts'),
    E('h_trunc', 'VBRI and Xing headers cut at every length'),
    E('h_scan', 'every stream of 0..8 bytes'),
    E('h_duration', '0..3 frames, 0..2 leading and 0..4 trailing bytes'),
    E('h_any', 'arbitrary first 0..6 bytes'),
])
H('P13', 'p13.cc', 'scribbu framesv2 charsets id3v2', [
    E('h_encode', 'every string of 0..3 bytes'), E('h_decode', 'every string of 0..5 bytes'),
    E('h_cloud1', 'zero or one key of 1..2 bytes with 0..2 values of 0..1 bytes'), E('h_cloud2', '0..2 keys of one byte with 0..1 values of 0..1 bytes'),
    E('h_query', 'every query string of 0..4 characters without escapes'), E('h_edit', 'cloud of 0..1 keys, one edit with arbitrary key and value'),
])
H('P17', 'p17.cc', 'winamp-genres', [
    E('h_names', 'all 256 genre numbers'), E('h_short', 'every ASCII text of 0..2 characters'),
    E('h_near', 'four genre names with one of four edits at three places, arbitrary ASCII character'),
    E('h_long', 'texts of 23..24 characters with one arbitrary ASCII character'),
])
H('P14', 'p14.cc', 'charsets', [
    E('h_to_utf8', 'nine source encodings, every byte string of 0..4 bytes (UTF-8: 0..3)'),
    E('h_to_narrow', 'to ASCII and ISO-8859-1 from four encodings, every byte string of 0..3 bytes, policies fail and ignore'),
    E('h_from_utf8', 'twelve target encodings, every text of 0..3 bytes without NUL, with and without byte-order mark, policies fail and ignore'),
    E('h_from_utf8_4', 'twelve target encodings, every four-byte character'),
    E('h_full_text', 'converter reports a full buffer once or twice, 1..4 bytes from three encodings'),
    E('h_full_bytes', 'converter reports a full buffer once or twice, text of 0..2 bytes to five encodings'),
    E('h_held_text', 'converter holds back the last 1..2 bytes until told that there is no more, and may report a full buffer once; 1..3 bytes from four encodings'), E('h_held_bytes', 'as above, 1..4 bytes held back, text of 0..2 bytes to five encodings'),
    E('h_unit', 'twelve encodings'), E('h_names', 'every encoding and policy'),
], nmodels=['iconv_wrap.cc'], libs=['-ldl'])
H('P12', 'p12.cc', CORE + ' pprinter json-pprinter', [
    E('h_frame22', 'every ID3v2.2 frame kind, text of 0..2 arbitrary bytes'), E('h_frame23', 'every ID3v2.3 frame kind, text of 0..2 arbitrary bytes'),
    E('h_frame24', 'every ID3v2.4 frame kind, text of 0..2 arbitrary bytes'), E('h_tag22', 'ID3v2.2 tags of 0..2 frames, one of any kind with one arbitrary byte'),
    E('h_tag23', 'ID3v2.3 tags of 0..2 frames, one of any kind with one arbitrary byte'), E('h_tag24', 'ID3v2.4 tags of 0..2 frames, one of any kind with one arbitrary byte'),
    E('h_id', 'unknown frames, arbitrary identifier beginning with Z'), E('h_v1', 'ID3v1 and v1.1 tags, 1..2 arbitrary bytes at the start or end of each field'), E('h_v1_tail', 'arbitrary last three bytes of an ID3v1 tag'), E('h_v1_ext', 'enhanced tags, 1..2 arbitrary bytes in each field'), E('h_escape', 'every ASCII text of 0..4 characters'),
])
H('P11', 'p11.cc', CORE + ' pprinter csv-pprinter tdf-pprinter', [
    E('h_escape', 'every text of 0..4 bytes, every permitted separator'), E('h_quote', 'texts of 1..3 bytes with quotes and nothing else to quote for'), E('h_sep', 'all 256 separators'),
    E('h_frame22', 'every ID3v2.2 frame kind, text of 0..2 arbitrary bytes, two separators and two tab styles'), E('h_frame23', 'every ID3v2.3 frame kind, as above'), E('h_frame24', 'every ID3v2.4 frame kind, as above'),
    E('h_id', 'unknown frames with arbitrary last identifier characters'), E('h_tag22', 'ID3v2.2 tags: one arbitrary text in each column, counts, comments'), E('h_year22', 'ID3v2.2 tag with a year of four digits, the last arbitrary'), E('h_tag23', 'ID3v2.3 tags, as above'), E('h_tag24', 'ID3v2.4 tags, as above'),
    E('h_v1', 'ID3v1 tags, 1..2 arbitrary bytes in each field'),
])
H('P16', 'p16.cc', CORE + ' tbt-support', [
    E('h_the', 'every text of 0..8 bytes, every article option'), E('h_cap', 'every text of 0..4 bytes, every capitalisation'), E('h_ws', 'every text of 0..6 bytes, compression and four replacements'),
    E('h_encode', 'every text of 0..3 bytes, three output encodings'), E('h_album', 'ID3v1 and ID3v2 texts of 0..2 arbitrary bytes each, every source preference, four ID3v1 encodings'),
    E('h_artist', 'as above'), E('h_title', 'as above'), E('h_compose', 'texts around the article with one arbitrary byte, every combination of transformations'), E('h_encoded_by', 'texts with two arbitrary bytes, every combination of transformations'),
    E('h_genre', 'all 256 genre numbers, every source preference'), E('h_year', 'years of 0..5 characters in either tag'), E('h_md5', 'digests of 0..2 arbitrary bytes, both bases and cases'), E('h_optional', 'arbitrary text, tag present or not'), E('h_bom', 'three byte-order marks, 510 characters'),
], shadow=True)
H('P16', 'p16b.cc', CORE + ' tbt-support gen:tbt-lexer gen:tbt-parser', [
    E('h_literal', 'template text of 1..2 arbitrary characters', opts=['--fork-tables']), E('h_any', 'eight beginnings of a template followed by 0..2 arbitrary characters', opts=['--fork-tables']),
    E('h_tag_options', 'every documented option of a tag term, one arbitrary character in each tag'), E('h_names', 'every replacement in both forms, one arbitrary character'), E('h_numbers', 'file sizes 0..300, one arbitrary byte of audio, every base and case'),
], shadow=True)
H('P10', 'p10.cc', CORE + ' tagset', [
    E('h_copy_layout', '0..2 old tags of any version with footers, audio, ID3v1, 0..1 new tags'), E('h_copy_tags', '0..2 new tags, versions, kinds, padding, unsynchronisation'), E('h_copy_names', 'seven forms of name, six sets of neighbouring files, devices, twice'),
    E('h_copy_fail', 'any single failing operation, short writes'), E('h_copy_stop', 'stop in any changing operation'),
    E('h_place_one', 'one new tag, area 4 bytes smaller to 4 larger'), E('h_place_two', 'two new tags, area 7 bytes smaller to 5 larger'), E('h_place_three', 'three new tags, area 8 bytes smaller to 4 larger'), E('h_place_edges', 'removing every tag, inserting the first'), E('h_place_fail', 'any single failing operation'), E('h_place_stop', 'stop in any changing operation'),
    E('h_place_read', 'tag with extended header, checksum, footer, area 3 bytes smaller to 3 larger'), E('h_large', 'old tags of six sizes between 127 and 16384 bytes, audio of five sizes between 10 and 16500 bytes, padding up to 17000'),
    E('h_exact', 'sizes the same or one apart'), E('h_new_file', 'target not there, any failing operation'), E('h_v1_remove', 'any failing operation or stop'), E('h_v1_replace', 'any failing operation or stop'), E('h_v1_new', 'no file'),
], shadow=True)
NOT_APPLICABLE = {}
NOTE = {}
CMD = CORE + ' tagset src:command-utilities'
H('P19', 'p19.cc', CMD + ' src:genre', [
    E('h_genre_scope', 'files of 0..2 ID3v2 tags of versions 2.2, 2.3 and 2.4, each without genre or with one of two (one arbitrary, 4 characters), with and without ID3v1 tag; nine ways to say which tags'),
    E('h_genre_create', 'files of 0..2 ID3v2 tags of any version, with and without ID3v1 tag, title and artist arbitrary; nine sets of options to make tags'),
    E('h_genre_number', 'genre numbers of 1..3 arbitrary digits, tags by index or not'), E('h_genre_match', 'a genre name in any mix of cases, and with a letter too many; tags by index or not'), E('h_genre_text', 'genre text of one arbitrary character, or of eight the last of which is arbitrary, ID3v1 genre absent or of 1 or 3 arbitrary digits; tags by index or not'),
    E('h_genre_usage', 'fifteen requests that make no sense'), E('h_genre_how', 'files of 1..2 tags of any version with a plain or an enhanced ID3v1 tag; every subset of dry run, backup, unsynchronisation, verbose'),
    E('h_genre_files', 'three files in two directories, six sets of arguments'), E('h_genre_fault', 'failure of any one of the first 40 file operations, moving nothing or half; with and without backup'),
], shadow=True)
H('P20', 'p20.cc', CMD + ' src:text', [
    E('h_text_scope', 'files of 0..2 ID3v2 tags of any version, without the frame or with it first or last, with and without ID3v1 tag; six ways to say which tags; two arbitrary characters'),
    E('h_text_field', 'each of the seven fields, four ways to write the option, one tag of any version, with and without the frame, with and without ID3v1 tag; two arbitrary characters'),
    E('h_text_delete', 'each of the seven fields under three names, one tag of any version with and without the frame'), E('h_text_several', 'four requests of two or three fields, one tag of any version'),
    E('h_text_encoding', 'one arbitrary character given in ISO-8859-1 or as two bytes of UTF-8, one tag of any version'), E('h_text_create', 'with and without either kind of tag; three sets of options to make tags; artist and title arbitrary'),
    E('h_text_how', 'files of 1..2 tags of any version, every subset of backup, unsynchronisation, verbose'), E('h_text_usage', 'eight requests that make no sense'), E('h_text_fault', 'failure of any one of the first 40 file operations, moving nothing or half, with and without backup; in place and by copy'),
], shadow=True)
H('P21', 'p21.cc', CMD + ' src:xtag', [
    E('h_xtag_scope', 'files of 0..2 ID3v2 tags of any version, each with no tag cloud, one or two of different owners, with and without ID3v1 tag; six ways to say which tags, owner not given, the same or another; making and merging or not; one arbitrary character'),
    E('h_xtag_owner', 'a cloud with an owner of 0..2 arbitrary characters, asked for with 1..2 arbitrary characters'), E('h_xtag_cloud', 'eight forms of request with one arbitrary tag and two arbitrary values, clouds of 0..2 tags with an arbitrary tag and value, replaced or merged'),
    E('h_xtag_escape', 'all 256 characters written as an escape, in a tag or in a value'), E('h_xtag_get', 'files of 0..2 ID3v2 tags with 0..2 clouds each, one value any byte; six ways to say which tags, owner given or not'),
    E('h_xtag_create', 'with and without either kind of tag, title and artist arbitrary; three sets of options to make tags, making the frame or not, with and without owner'), E('h_xtag_how', 'files of 1..2 tags of any version; every subset of dry run, backup, unsynchronisation, making frames; value with a false sync'),
    E('h_xtag_usage', 'twelve requests that make no sense'), E('h_xtag_fault', 'failure of any one of the first 40 file operations, moving nothing or half, with and without backup; in place and by copy'),
], shadow=True)
H('P22', 'p22.cc', CMD + ' src:popm', [
    E('h_popm_scope', 'files of 0..2 ID3v2 tags of any version, each with a play count, one or two popularimeters of different owners, or none; with and without ID3v1 tag; six ways to say which tags, three which frames, owner given or not, no rating or an arbitrary one'),
    E('h_popm_count', 'a play count or popularimeter of 0, 1, 2, 4 or 5 arbitrary bytes, an arbitrary rating; counting one, adding or setting 255 or (to the shorter ones) a number of 1..3 arbitrary digits, setting one beyond 32 bits'), E('h_popm_twice', 'two runs, counters with an arbitrary byte'),
    E('h_popm_rating', 'ratings of 1..4 arbitrary digits, or an arbitrary character 1..6 times'), E('h_popm_frame', 'one tag of any version with either frame, both or none, counters with an arbitrary byte; which frames, no owner, the same or another, rating, an increment of two arbitrary digits'),
    E('h_popm_create', 'with and without either kind of tag, title and artist arbitrary; three sets of options to make tags, counting or setting an arbitrary number of two digits, with and without rating'),
    E('h_popm_how', 'files of 1..2 tags of any version; every subset of dry run, backup, unsynchronisation, verbose; counters with an arbitrary byte'), E('h_popm_usage', 'twelve requests that make no sense'),
    E('h_popm_fault', 'failure of any one of the first 40 file operations, moving nothing or half, with and without backup; in place and by copy'),
], shadow=True)
H('P23', 'p23.cc', CMD + ' src:split', [
    E('h_split_parts', 'files of 0..2 ID3v2 tags of any version with and without footer, three sizes of padding, 0..3 arbitrary bytes of audio, no, a plain or an enhanced ID3v1 tag'), E('h_split_many', '3..11 tags'), E('h_split_large', 'tags of twelve sizes from 126 to 17010 bytes, of any version; audio of 128 or 9000 bytes'),
    E('h_split_names', 'input in three places, a suffix of 0..2 arbitrary characters, outputs there before or not'), E('h_split_self', 'input named like an output, three ways to write it'), E('h_split_short', 'files that end anywhere within the first or second tag'), E('h_split_usage', 'five requests that make no sense'), E('h_split_fault', 'failure of any one of the first 30 file operations, moving nothing or half'),
], shadow=True)
H('P24', 'p24.cc', CMD + ' src:rename tbt-support gen:tbt-lexer gen:tbt-parser', [
    E('h_rename_one', 'artist of one and title of 1..2 arbitrary characters in either or both tags, five templates, three output directories, dry run, removing or not'), E('h_rename_files', 'three files in two directories and two of other kinds, arbitrary one-character names, five sets of arguments'), E('h_rename_without', 'files without tags, or without the frames the template names'),
    E('h_rename_usage', 'ten requests that make no sense'), E('h_rename_fault', 'two files; failure of any one of the first 40 file operations or stop in any of the first 12 changing ones, moving nothing, half or all'),
], shadow=True)
H('P25', 'p25.cc', CMD + ' src:m3u', [
    E('h_m3u_title', 'artists and titles of one arbitrary character in nine arrangements of ID3v2 tags of any version and four of ID3v1 tags, audio of 0..21 frames; to a file or standard output, as UTF-8 or not'), E('h_m3u_files', 'three files in two directories, five sets of arguments'), E('h_m3u_append', 'a playlist of 0..3 arbitrary bytes there before or not, written or appended to once or twice'), E('h_m3u_usage', 'nine requests that make no sense'), E('h_m3u_fault', 'two files; failure of any one of the first 40 file operations'),
], shadow=True)

H('P26', 'p26.cc', CMD + ' pprinter csv-pprinter tdf-pprinter src:report', [
    E('h_report_row2', 'one file: no ID3v2 tag or one of any version with up to two text columns or three comments, with or without an ID3v1 tag, 0..2 arbitrary bytes of audio, 0..2 comments wanted; arbitrary texts of 1..2 characters; comma, tab or ASCII separated'), E('h_report_row1', 'one file: no ID3v1 tag or two kinds, arbitrary texts of one character, with or without an ID3v2 tag'), E('h_report_names', 'file names of 2..3 characters but the first arbitrary'), E('h_report_files', 'three files in two directories, five sets of arguments; any one of them unreadable in four ways'), E('h_report_usage', 'eleven requests that make no sense'), E('h_report_missing', 'a missing file before or after another'), E('h_report_fault', 'two files; failure of any one of the first 40 file operations'),
], shadow=True)

H('P27', 'p27.cc', CORE + ' pprinter', [
    E('h_list22', 'every ID3v2.2 frame kind, texts and data of 0..2 arbitrary bytes, arbitrary numbers; with and without indentation; after three kinds of earlier output'), E('h_list23', 'every ID3v2.3 frame kind, as above; private data of 0..17 bytes'), E('h_list24', 'every ID3v2.4 frame kind, as above'),
    E('h_listtag22', 'ID3v2.2 tags with none, each or all of the texts of the summary, each arbitrary'), E('h_listtag23', 'ID3v2.3 tags, as above'), E('h_listtag24', 'ID3v2.4 tags, as above'), E('h_listv1', 'ID3v1 tags, plain and enhanced, one field of 1..2 arbitrary characters, any track number, three genres'), E('h_listtrack', '0..3 arbitrary bytes of audio'),
])
H('P27', 'p27b.cc', CMD + ' pprinter csv-pprinter tdf-pprinter json-pprinter src:dump', [
    E('h_dump', 'dump: three formats, every choice of parts, 0..2 tags of all versions, ID3v1 none, plain or enhanced; arbitrary text'), E('h_dump_files', 'dump: three files and five ways of naming them, one unreadable or none, three formats'), E('h_dump_usage', 'dump: eight requests that make no sense'),
], shadow=True)

H('P28', 'p28.cc', CORE, [
    E('h_enc_word', 'every word of 1..17 non-blank bytes'), E('h_enc_asked', 'every encoding as source and as target, three policies'), E('h_lang_word', 'every word of 1..4 non-blank bytes'),
    E('h_lang_two', 'every two-letter language in any of three environment variables, five endings'), E('h_lang_three', 'every three-letter language, five endings'), E('h_lang_comment', 'three environment variables, each unset or one of five values; comments of all versions'), E('h_locale_enc', 'locale names with one of 33 encodings or an arbitrary word of 1..5 characters, with or without language'),
], nmodels=['iconv_wrap.cc'], libs=['-ldl'])

SCM = CORE + ' tagset dynwind-context scheme-serde scheme'
H('P29', 'p29.cc', SCM, [
    E('h_scm_names', 'each of the 38 text frames with a name for scripts, in every version that has it; one arbitrary character'), E('h_scm_text', 'a title of 0..2 arbitrary characters in every encoding of every version; one character with every combination of flags; ID3v2.4 frames unsynchronised or not'),
    E('h_scm_comment', 'comments of 0..1 arbitrary characters with description of 0..1, three languages, every encoding and combination of flags'), E('h_scm_user_text', 'user-defined texts likewise'),
    E('h_scm_count', 'counters of 4 and 5 bytes with two arbitrary, any rating, owner of 0..1 arbitrary characters, every combination of flags'), E('h_scm_cloud', 'tag clouds of 0..2 tags with 0..2 arbitrary values, owner of 0..1 arbitrary characters, every combination of flags'),
    E('h_scm_other', 'unknown and private frames of 1..3 arbitrary bytes, every combination of flags, tag and frame unsynchronised or not'),
    E('h_scm_tags', 'two tags of any versions, experimental or not; written back, in the other order, one only, none, or one in another version; one arbitrary character each'), E('h_scm_made', 'a title of 0..2 arbitrary characters in a frame made or changed by the script, with and without room and ID3v1 tag'),
    E('h_scm_options', 'four ways to say whether to unsynchronise, with and without copy; unknown frame of 0xff and two arbitrary bytes'), E('h_scm_refuse', 'ten kinds of request that make no sense'), E('h_scm_fault', 'failure of any one of the first 30 file operations, moving nothing or half, with and without copy'), E('h_scm_unread', 'no file, a file of any three bytes after "aud", a tag of any version with three arbitrary bytes'),
], shadow=True, models=['shadow/guile.cc'], nmodels=['shadow/guile.cc'])
H('P30', 'p30.cc', SCM, [
    E('h_v1_back', 'each text in turn of 0..2 arbitrary ISO-8859-1 characters (30..32 in enhanced tags), any genre, track number, speed and enhanced genre; with and without year, times and ID3v2 tag'), E('h_v1_made', 'the same, made by the script, in place of no tag, a plain one or an enhanced one'),
    E('h_v1_long', 'texts of 27..31 characters, the last arbitrary'), E('h_v1_refuse', 'nine kinds of tag that make no sense'), E('h_v1_none', 'files without ID3v1 tag, and none'), E('h_v1_fault', 'failure of any one of the first 20 file operations, moving nothing or half'),
    E('h_track', 'three files in two directories, each without tags, with an ID3v2 tag, an ID3v1 tag, both, or unreadable; one arbitrary character; the script raising an error or not'),
], shadow=True, models=['shadow/guile.cc'], nmodels=['shadow/guile.cc'])

H('P31', 'p31.cc', CMD + ' pprinter csv-pprinter tdf-pprinter json-pprinter src:genre src:text src:xtag src:popm src:rename src:dump tbt-support gen:tbt-lexer gen:tbt-parser', [
    E('h_env_genre', 'each of the ten variables'), E('h_env_text', 'each of the five variables'), E('h_env_xtag', 'each of the seven variables; cloud of either owner or none'), E('h_env_popm', 'each of the six variables; popularimeter of either owner or none'), E('h_env_rename', 'each of the three variables; with ID3v2 tag'),
    E('h_env_dump', 'both variables, one value each'),
], shadow=True)
