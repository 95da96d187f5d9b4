#!/usr/bin/env python3
"""Single source for properties.jsonl (kept here so that it stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state,observe,hook=False):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=state,observe_at=observe,hook_needed=hook)))

p("P01","Reading untrusted ID3v2 bytes is memory-safe and always ends",
 "Whatever bytes a stream holds, reading an ID3v2.2, 2.3 or 2.4 tag from it either produces a tag or raises an exception. "
 "The reader never touches memory outside its buffers, never depends on uninitialised data, never loops forever and never terminates the process. "
 "This includes truncated tags, wrong frame sizes, extended headers, grouped/encrypted/compressed frame prefixes and unsynchronised bodies.",
 ["inputs"],"every byte string up to the bound placed in the tag header, extended header, frame headers and frame bodies, for each of the three versions",
 "Unit tests read a handful of well-formed files; a bad length, flag or truncation is one of 2^n byte strings and most of them only corrupt memory silently.",
 ["scribbu/id3v22.cc","scribbu/id3v23.cc","scribbu/id3v24.cc","scribbu/framesv2.cc","scribbu/framesv2.hh","scribbu/framesv22.cc","scribbu/framesv23.cc","scribbu/framesv24.cc","scribbu/id3v2.cc"],
 [("v2.2 reader","scribbu/id3v22.cc"),("v2.3 reader","scribbu/id3v23.cc"),("v2.4 reader","scribbu/id3v24.cc"),("frame body constructors","scribbu/framesv2.hh, scribbu/framesv2.cc")],
 ["read buffer and cursor while frames are carved out of it"],["tag constructor from an input stream: result, exception, memory accesses"])

p("P02","An ID3v2 tag written out reads back with the same frames and values",
 "Writing any tag and reading the bytes back, with or without unsynchronisation, gives a tag of the same version with the same frames in the same order, "
 "the same text, comments, play counts, ratings, identifiers and frame flags, and the same padding.",
 ["inputs","configurations"],"every tag built from up to the bound of frames of each kind with arbitrary contents and flags, each version, with and without unsynchronisation",
 "The result depends on all byte values of all frame bodies (false syncs, nulls, encodings, flag bits); tests fix a few literal tags.",
 ["scribbu/id3v22.cc","scribbu/id3v23.cc","scribbu/id3v24.cc","scribbu/framesv22.cc","scribbu/framesv23.cc","scribbu/framesv24.cc","scribbu/framesv2.hh"],
 [("tag writers","write() in scribbu/id3v22.cc, id3v23.cc, id3v24.cc"),("frame header writers","scribbu/framesv22.cc, framesv23.cc, framesv24.cc"),("tag readers","constructors in the same files")],
 ["frame list, flags, padding"],["bytes written; tag read from them"])

p("P03","The size a tag or frame declares is exactly the number of bytes it writes",
 "For every tag and every frame, the size reported for a given unsynchronisation choice, the size field in the written header and the number of bytes actually written agree, "
 "so that a reader that skips the declared size (and the footer, if there is one) lands exactly on the first byte after the tag.",
 ["inputs","configurations"],"every tag and frame within the bound, each version, with and without unsynchronisation, padding and extended header",
 "An off-by-one only shows for particular contents (false sync at a field boundary, empty field, padding with extended header).",
 ["scribbu/id3v22.cc","scribbu/id3v23.cc","scribbu/id3v24.cc","scribbu/framesv2.hh","scribbu/framesv2.cc","scribbu/framesv22.hh","scribbu/framesv23.hh","scribbu/framesv24.hh"],
 [("tag size()","scribbu/id3v22.cc, id3v23.cc, id3v24.cc"),("frame size()/write()","scribbu/framesv2.hh and derived frames")],
 ["serialisation caches","padding"],["size(unsync) against bytes emitted by write(os, unsync)"])

p("P04","Unsynchronisation is reversible and leaves no false sync",
 "Removing unsynchronisation from the unsynchronised form of any byte string gives that byte string back, the unsynchronised form never contains 0xFF followed by a byte of 0xE0 or more nor a bare 0xFF 0x00, and it grows by exactly the number of escapes predicted beforehand. "
 "A tag reports that it needs unsynchronisation exactly when its plain serialisation contains a false sync (for ID3v2.3 also an 0xFF ending the last frame; for ID3v2.4, where the scheme works frame by frame, when every frame not already unsynchronised contains one).",
 ["inputs"],"every byte string up to the bound, including patterns that straddle field and frame boundaries",
 "The property is over all byte strings; patterns at boundaries and runs of 0xFF are rarely hit by literal examples.",
 ["scribbu/id3v2.cc","scribbu/id3v2.hh","scribbu/framesv2.cc","scribbu/framesv2.hh"],
 [("unsynchronise/resynchronise","scribbu/id3v2.cc, scribbu/id3v2.hh"),("false-sync counters","scribbu/framesv2.cc")],
 [],["output of unsynchronise/resynchronise, needs_unsynchronisation, size difference"])

p("P05","Every frame keeps what was put into it, through edits and re-encoding",
 "Building a frame from values and asking it back, parsing its serialised body, or changing a value after it was already serialised always yields the latest values: text, language, description, owner, identifier, rating, counter and tag-cloud entries. "
 "Counters never lose counts when they grow past a byte boundary.",
 ["inputs","histories"],"every value within the bound for each frame kind and every order of set, serialise, set, serialise",
 "Stale caches and width changes need a specific order of calls and specific values; tests construct then check once.",
 ["scribbu/framesv2.hh","scribbu/framesv2.cc","scribbu/framesv22.hh","scribbu/framesv23.hh","scribbu/framesv24.hh","scribbu/framesv22.cc","scribbu/framesv23.cc","scribbu/framesv24.cc"],
 [("frame value classes","scribbu/framesv2.hh, scribbu/framesv2.cc"),("versioned frames and their caches","scribbu/framesv22.hh, framesv23.hh, framesv24.hh")],
 ["serialisation cache and its dirty flag","counter bytes"],["accessors and serialised bytes after each step"])

p("P06","Looking things up in a tag agrees with its frames after any edit history",
 "After any sequence of adding, replacing, inserting and removing frames, setting text by name, adding comments or user text and iterating, every lookup "
 "(is a frame present, how many, fetch by id, text, comments, play count, rating) answers exactly what a scan of the tag's frames would, and no lookup touches a frame that is gone.",
 ["histories","inputs"],"every sequence of edits up to the bound over small sets of frame ids and positions, each version",
 "Lookups are kept in separate index tables; only particular sequences (remove the first, then query the third) expose a stale entry.",
 ["scribbu/id3v22.cc","scribbu/id3v22.hh","scribbu/id3v23.cc","scribbu/id3v23.hh","scribbu/id3v24.cc","scribbu/id3v24.hh"],
 [("frame list and lookup tables","add_frame_to_lookups/remove_frame_from_lookups/insert/erase in scribbu/id3v22.cc, id3v23.cc, id3v24.cc")],
 ["frame vector, id index, specialised indices"],["has_frame/get_frame/text/comment/play-count queries compared with iteration"])

p("P07","Copying a tag gives an equal and independent tag",
 "A copy-constructed, cloned or assigned tag answers every query and serialises exactly as the original, later edits to either do not affect the other, and assignment discards what the target held before.",
 ["inputs","histories"],"every tag within the bound of frames and header options, copied by construction, clone and assignment, followed by any single edit",
 "Defects hide in rarely populated members (extended header, lookups for special frames) and only show on later queries of the copy.",
 ["scribbu/id3v2.hh","scribbu/id3v22.cc","scribbu/id3v23.cc","scribbu/id3v24.cc"],
 [("copy constructors, assignment, clone","scribbu/id3v22.cc, id3v23.cc, id3v24.cc, id3v2.hh")],
 ["frame vector, lookup tables, header options"],["queries and serialisation of the copy and the original"])

p("P08","ID3v1 tags of every flavour are read, edited and written faithfully",
 "For any 128-byte (or extended 355-byte) tail, reading a tag and writing it back reproduces its bytes; setting any field then writing and reading returns that field truncated to its width and leaves the others alone. "
 "A new tag has well-defined contents, and a track number is present exactly when the format says so.",
 ["inputs","histories"],"every tag tail and every setter sequence up to the bound, for plain, 1.1 and extended tags",
 "The fixed-width fields overlap (comment versus track number, basic versus extended title), so faults depend on particular bytes and lengths.",
 ["scribbu/id3v1.cc","scribbu/id3v1.hh"],
 [("reader, setters and writer","scribbu/id3v1.cc")],["field buffers and flavour flags"],["fields and written bytes"])

p("P09","Size and integer encodings are exact inverses over their whole range",
 "Encoding any representable size or number in the sync-safe and plain big-endian forms of each ID3v2 version and decoding it returns the same value; sync-safe bytes never have the top bit set, and unrepresentable values are refused rather than truncated.",
 ["inputs"],"all 32-bit values and all byte quadruples",
 "2^32 values; tests check a few constants.",
 ["scribbu/id3v2.hh","scribbu/id3v2.cc","scribbu/framesv2.hh","scribbu/framesv2.cc"],
 [("size codecs","scribbu/id3v2.hh, scribbu/id3v2.cc")],[],["decoded value, encoded bytes, exceptions"])

p("P10","Rewriting a file's tags never harms its audio or loses the original",
 "Replacing, inserting or removing tags leaves the audio bytes identical and the file a valid sequence of the requested tags followed by the audio and any ID3v1 tag; padding absorbs size changes exactly when an in-place rewrite is chosen. "
 "A failing file operation is reported, and when a file is rewritten by copying, a failure or stop at any step leaves the old or the new complete file under the target, backup or temporary name; an in-place rewrite never changes a byte outside the tag area.",
 ["inputs","fault_sequences","crash_points"],"every small file layout and tag set within the bound, every single failing file operation and every stopping point",
 "Needs a failure or stop at each individual file operation, which ordinary tests cannot produce.",
 ["scribbu/tagset.hh","scribbu/tagset.cc","scribbu/id3v2-utils.cc","scribbu/id3v1.cc"],
 [("in-place and copy rewriting, backups","scribbu/tagset.hh, scribbu/tagset.cc")],["file contents, backup files"],["file system contents after success, failure or stop"])

p("P11","CSV and tab output keeps one field per value for any text",
 "Whatever characters a tag's text contains, each printed CSV record has the documented number of fields and splitting it by the CSV quoting rules gives back every text value unchanged; the same holds of tab-delimited output for texts without the delimiter.",
 ["inputs"],"every field text up to the bound and every permitted separator",
 "Separators, quotes and line breaks in any combination; tests print ordinary names.",
 ["scribbu/csv-pprinter.cc","scribbu/csv-pprinter.hh","scribbu/tdf-pprinter.cc"],
 [("CSV escaping and printers","scribbu/csv-pprinter.cc")],[],["text emitted on the output stream"])

p("P12","JSON output is well-formed and carries the tag's text unchanged",
 "Whatever a tag contains, the JSON printed for it is one syntactically valid JSON value, and decoding its strings gives back the tag's text; text that is malformed in its own encoding may be reported as a failure instead.",
 ["inputs"],"every tag of each version and every frame kind with text up to the bound",
 "Quoting faults appear for particular characters and particular frame kinds; tests compare a single document.",
 ["scribbu/json-pprinter.cc","scribbu/json-pprinter.hh"],
 [("JSON printers and escaping","scribbu/json-pprinter.cc")],[],["text emitted on the output stream"])

p("P13","URL-encoding and tag-cloud query strings round-trip",
 "Encoding any string for a URL uses only safe characters and decodes back to the same string; printing a tag cloud with non-empty keys as a query string and parsing it gives the same owner-independent set of keys and values. Malformed input is decoded or refused without reading past its end.",
 ["inputs"],"every byte string up to the bound and every small map of keys to value sets",
 "All byte values, percent signs at the very end, empty keys and values in combination.",
 ["scribbu/scribbu.cc","scribbu/scribbu.hh","scribbu/framesv2.cc"],
 [("urlencode/urldecode","scribbu/scribbu.cc"),("tag cloud text form","scribbu/framesv2.cc")],[],["encoded and decoded strings"])

p("P14","Text conversion returns all the text or reports failure",
 "Converting text between supported encodings yields exactly the characters of the input, without its byte-order mark and trailing blanks, whatever its length; when a character cannot be converted the failure policy (fail, transliterate, ignore) decides, and partial or uninitialised output is never returned.",
 ["inputs","configurations"],"every byte string up to the bound for the ID3 encodings and every outcome the system converter may report (done, output full, bad input, incomplete input)",
 "Retry paths taken when the converter reports a full buffer are never reached by ordinary text.",
 ["scribbu/charsets.cc","scribbu/charsets.hh"],
 [("conversion around the system converter","scribbu/charsets.cc")],["conversion buffers"],["converted text or exception"])

p("P15","MP3 frame headers and VBR headers are decoded exactly and safely",
 "For any four header bytes the frame is rejected if reserved values are used and otherwise reports the version, layer, bit rate, sample rate, padding and length the MPEG tables give; counts and lengths in Xing, LAME and VBRI headers are reported as stored; scanning any audio bytes for duration ends, makes progress and never reads outside its buffers.",
 ["inputs"],"all 2^32 frame headers and all byte strings up to the bound",
 "2^32 headers and crafted Xing/VBRI headers; tests use a few encoder outputs.",
 ["scribbu/mp3.cc","scribbu/mp3.hh"],
 [("frame header, Xing/LAME/VBRI parsers, duration scan","scribbu/mp3.cc")],[],["decoded fields, duration, exceptions"])

p("P16","File-name template transforms are total and do what they say",
 "Applying any template text transformation (capitalisation, the-prefix moves, white-space compression, encoding) to any text gives the documented text, handles empty and one-character text, and never fails on valid input. Every documented term and option is accepted when a template is parsed, whatever was parsed before.",
 ["inputs"],"every text up to the bound and every transformation option",
 "Empty and boundary texts in combination with options are not exercised.",
 ["scribbu/tbt-support.cc","scribbu/tbt-support.hh"],
 [("template terms and transformations","scribbu/tbt-support.cc")],[],["evaluated text or exception"])

p("P17","Genre matching finds the closest genre and numbers map to fixed names",
 "The distance used for matching a free-form genre equals the (restricted) Damerau-Levenshtein distance by definition for every pair of texts, the reported genre attains the minimum, and every number in the table maps to one name while others map to none.",
 ["inputs"],"every pair of strings up to the bound and every genre number",
 "The optimised diagonal algorithm can differ from the definition on particular transposition patterns only.",
 ["scribbu/winamp-genres.cc","scribbu/winamp-genres.hh"],
 [("diagonal distance algorithm and tables","scribbu/winamp-genres.cc")],["work matrix shared between comparisons"],["distance, genre number and name"])

p("P18","Probing a stream for tags leaves the stream as it was found",
 "Looking for ID3v1 and ID3v2 tags in a stream reports presence, position and size correctly for any content and any length, and leaves read position, error state and exception settings as the caller had them where documented. Reading the n-th ID3v2 tag, or all of them, finds exactly the tags that are there.",
 ["inputs","configurations"],"every stream content up to the bound, every start position and exception setting",
 "Short streams, tags at odd offsets and the caller's exception mask interact; tests use whole files.",
 ["scribbu/id3v1.cc","scribbu/id3v2-utils.cc","scribbu/id3v2.cc","scribbu/scribbu.cc"],
 [("tag probes","ends_in_id3v1/process_id3v1 in scribbu/id3v1.cc; looking_at_id3v2 in scribbu/id3v2.cc; find_id3v1_tag in scribbu/scribbu.cc")],["stream position and exception mask"],["probe result and stream state afterwards"])

p("P19","Setting genres changes the genre of exactly the tags selected",
 "Setting the genre changes the genre of exactly the tags selected: each holds the genre asked for afterwards, once, and every other frame, tag, the audio and all other files stay as they were. Tags are created only where asked for, carrying over what the other tags say; backups asked for are exact copies and are not themselves processed. A dry run changes nothing, and a request that cannot be carried out is refused with a failure status before any file is changed.",
 ["inputs","configurations","fault_sequences"],"every combination of selection, creation, comment, backup and dry-run options, genres by number, name and free text, every arrangement of tags up to the bounds, a failure of any file operation",
 "The options multiply: which tags, how the genre is given, what is created, which version and what was there before; tests run a few command lines on one file.",
 ["src/genre.cc","src/command-utilities.cc","src/command-utilities.hh","scribbu/tagset.cc"],
 [("genre command","handle_genre and its tag processor in src/genre.cc"),("walk over files and tags","process_dirent_args and tagset_processor in src/command-utilities.*")],["file on disk"],["file contents and exit status after the command"])
p("P20","Setting or removing texts changes exactly the frames named, in the tags selected",
 "Setting artist, title, album, year, track and the other texts leaves each selected tag with exactly one such frame holding the text asked for, readable in the encoding declared, and removing them leaves none; nothing else in the tag, in other tags, in the audio or in other files changes. ID3v1 fields are set alongside where there is an ID3v1 tag in scope; tags are created only where asked for. Text that cannot be represented as asked, and requests that make no sense, give a failure status and leave the files as they were.",
 ["inputs","configurations","fault_sequences"],"every text of up to a few arbitrary characters, every field, source encoding, selection, creation and backup option, every arrangement of tags up to the bounds, a failure of any file operation",
 "What is stored depends on the text, its encoding, the tag version and the frames there before; tests use a few ASCII texts.",
 ["src/text.cc","src/command-utilities.cc","src/command-utilities.hh","scribbu/id3v22.cc","scribbu/id3v23.cc","scribbu/id3v24.cc"],
 [("text command","handle_text and its tag processor in src/text.cc")],["file on disk"],["file contents and exit status after the command"])
p("P21","Editing tag clouds changes exactly the clouds selected, as asked",
 "Setting or merging a tag cloud leaves each selected tag's cloud with exactly the tags and values asked for (merged with those there before when updating), escapes undone, and changes nothing else in the file or other files; clouds are created only where asked for. Reading clouds prints them and changes no file. A dry run changes nothing, and a malformed request is refused with a failure status before any file is changed.",
 ["inputs","configurations","fault_sequences"],"every tag and value of a few arbitrary bytes, escaped or not, every selection by index and owner, every arrangement of tags up to the bounds, a failure of any file operation",
 "Escapes, several values per tag, several owners and several tags per file interact; tests use one cloud in one tag.",
 ["src/xtag.cc","src/command-utilities.cc","src/command-utilities.hh","scribbu/framesv2.cc"],
 [("xtag command","handle_xtag and its tag processor in src/xtag.cc"),("cloud parsing","tag_cloud in scribbu/framesv2.cc")],["file on disk"],["file contents, printed clouds and exit status after the command"])
p("P22","Play counts and ratings are updated exactly as asked",
 "Recording plays adds to, or sets, exactly the play count and popularimeter frames selected, for counters of any width including those that grow by a byte, and sets the rating asked for; repeating the command adds again. Other frames, tags, the audio and other files stay as they were, frames and tags are created only where asked for, a dry run changes nothing, and a malformed request is refused with a failure status before any file is changed.",
 ["inputs","configurations","fault_sequences"],"every counter up to five bytes with a few arbitrary bits, every rating, every selection and creation option, every arrangement of tags up to the bounds, a failure of any file operation",
 "Counters overflow from one width to the next, ratings are written in several notations, owners and tags are selected independently; tests use small counters.",
 ["src/popm.cc","src/command-utilities.cc","src/command-utilities.hh","scribbu/framesv2.cc"],
 [("popm command","handle_popm and its tag processor in src/popm.cc"),("counters","play_count and popularimeter in scribbu/framesv2.cc")],["file on disk"],["file contents and exit status after the command"])
p("P23","Splitting a file gives exactly its tags, audio and ID3v1 tag",
 "Splitting a file writes each ID3v2 tag, the audio and the ID3v1 tag to a file of its own; put together in order they are the input, byte for byte. The input is never changed, not even when an output would have its name, and no other file is touched. A part that could not be written completely, or an input that ends within a tag, gives a failure status.",
 ["inputs","fault_sequences"],"every arrangement of tags, footers, paddings, audio and plain or enhanced ID3v1 tags up to the bounds, every suffix, a failure of any file operation",
 "Boundaries depend on tag versions, footers and sizes of several bytes; tests split one file.",
 ["src/split.cc","scribbu/id3v2.cc","scribbu/id3v1.cc"],
 [("split command","split_file and xfer_bytes in src/split.cc")],["files on disk"],["files written and exit status after the command"])
p("P24","Renaming files by template never loses or overwrites a file",
 "Renaming gives each selected file the name the template makes of its tags, with its contents unchanged, in its own or the given output directory; the old name goes away only when asked for and only after the new file is complete. An existing file is never overwritten: a clash leaves both files and gives a failure status. A dry run, a malformed template or a missing output directory change nothing, and no failure or crash at any point loses the contents of a file.",
 ["inputs","configurations","crash_points","fault_sequences"],"every artist and title of a few arbitrary characters, templates, output directories and options, clashes between files, a failure of any file operation, a stop at any change to the file system",
 "Names come from tags, so clashes between files, with existing files and with the file itself depend on data; tests rename one file to a fresh name.",
 ["src/rename.cc","scribbu/tbt-support.cc","scribbu/tbt-lexer.ll","scribbu/tbt-parser.yy"],
 [("rename command","handle_rename and its renamer in src/rename.cc")],["files on disk"],["files and their contents after the command or crash"])
p("P25","Playlists list every file once, with its title and length",
 "A playlist holds one entry for each file given or found in a directory given: its length in seconds, rounded, artist and title from the first ID3v2 tag that has both, else from the ID3v1 tag, else the name of the file, and its path as given. A new playlist begins with the header once; appending keeps what was there and adds entries only. The files listed are never changed, and a playlist that could not be written completely, or a request that makes no sense, gives a failure status.",
 ["inputs","configurations","fault_sequences"],"every artist and title of one arbitrary character in every arrangement of tags up to the bounds, audio of various lengths, output options, a failure of any file operation",
 "Which title is shown depends on which tags have which frames and on the encoding; tests list one file.",
 ["src/m3u.cc","src/command-utilities.hh","scribbu/mp3.cc"],
 [("m3u command","handle_m3u, process_file and guess_display_title in src/m3u.cc")],["playlist"],["playlist and exit status after the command"])
p("P26","Reports have one complete row per file, saying what its tags say",
 "A report has a header and one row for each file given and each .mp3 file found in a directory given, with as many columns as the header; the values are those of the file's first ID3v2 tag, its audio and its ID3v1 tag, empty where there is none, and names and texts come back by the rules of the format. A file that cannot be read leaves no part of a row, does not affect other rows and gives a failure status, as does a report that could not be written completely or a request that makes no sense. The files reported on are never changed.",
 ["inputs","configurations","fault_sequences"],"every tag, text and file name up to the bounds, every format, number of comments and way of naming files, an unreadable file at any place, a failure of any file operation",
 "Whether columns line up depends on which tags a file has, on the number of comments asked for and on characters that need quoting; failures while writing cannot be provoked in a test.",
 ["src/report.cc","scribbu/csv-pprinter.cc","scribbu/tdf-pprinter.cc","scribbu/scribbu.cc"],
 [("report command","handle_report, the reporters and sequential_strategy in src/report.cc")],["report"],["report and exit status after the command"])
p("P27","Listings show every tag and frame completely, whatever was printed before",
 "The readable listing of a file shows, for each tag, its version, size, flags, artist, title, album, track and year, then each frame in order with its identifier and contents: texts as they are, numbers in decimal, other data two hexadecimal digits to the byte (of private data the first sixteen bytes), every line indented as asked; audio and ID3v1 tags are shown likewise. What was printed before makes no difference. The listing command shows exactly the parts asked for of exactly the files named, in the format asked for; a file that cannot be read leaves nothing behind.",
 ["inputs","configurations","histories"],"every frame kind of every version with arbitrary contents up to the bounds, every combination of summary texts, ID3v1 tags, indentation, formats, parts and ways of naming files, after any of several earlier outputs",
 "What is printed depends on formatting state left in the stream by whatever was printed before, and on the contents of every frame kind; tests compare a few files.",
 ["scribbu/pprinter.cc","scribbu/pprinter.hh","src/dump.cc"],
 [("readable printer","standard_pprinter in scribbu/pprinter.cc"),("dump command","dumper and handler in src/dump.cc")],["stream formatting state"],["text printed"])
p("P28","Names of encodings and languages mean what they say",
 "Every encoding listed is understood by the name it is listed under, and text is then converted by the system's converter of that name under the policy asked for; a word that names no encoding or language is refused, never taken for another. A comment given no language carries the ISO 639-2 code of the language the environment's locale names, by two or three letters, and none when it names none; each code is read, printed and written as the same language. Text of unstated encoding is taken to be in the encoding the locale names.",
 ["inputs","configurations"],"every word up to the bounds, every encoding, policy and language, every locale named by two or three letters in any of the environment variables, every encoding in a locale name",
 "Several tables of hundreds of names must agree; tests look up a few.",
 ["scribbu/charsets.cc","scribbu/charsets.hh","scribbu/framesv2.cc"],
 [("encoding names","operator>>, operator<< and string_for_encoding in scribbu/charsets.cc"),("languages","language_from_locale, language_from_iso_639_1 and language_to_iso_639_2 in scribbu/charsets.cc"),("encoding of the locale","encoding_from_system_locale in scribbu/charsets.cc")],["environment","name of the global locale"],["what a name is understood as; the converter asked for; the language code written"])
p("P29","Scripts see an ID3v2 tag as it is, and what they give back is what is written",
 "A script that reads a file's ID3v2 tags gets every tag and every frame in order, with version, padding and flags, and each text, language, description, count, rating, owner, tag cloud and unknown frame as stored. What it gives back - unchanged, edited, made anew, in another order or version - is what the file's tags say afterwards, the audio and ID3v1 tag as they were; unsynchronisation is as asked for and a backup is kept when asked for. A request that makes no sense, or a file operation that fails, raises an error in the script, and a request refused leaves the file as it was.",
 ["inputs","configurations","fault_sequences"],"every frame kind scripts know in every version, encoding and combination of flags, with arbitrary contents up to the bounds; every option; a failure of any file operation",
 "Forty kinds of frame in three versions go through separate code in either direction; tests read two files and write one text.",
 ["scribbu/scheme.cc","scribbu/scheme-serde.cc","scheme/scribbu.scm"],
 [("bindings","read_tagset, write_tagset, scm_from_id3v2_tag and scm_to_id3v2_tag in scribbu/scheme.cc"),("frames","scheme_serde_dispatcher and the functions it dispatches to in scribbu/scheme-serde.cc")],["slots of the objects scripts hold","file"],["slots after reading; file after writing; errors raised"])
p("P30","Scripts see ID3v1 tags as they are and every file of a directory once",
 "A script that reads a file's ID3v1 tag gets each field as stored, with the track number and the enhanced fields when there are any; a tag written back unchanged leaves the file the same byte for byte, and a tag made by a script is stored as given, in place of the one there, with texts cut at the end of their fields. A field that does not fit, or a file operation that fails, raises an error in the script. Walking a directory hands the script each file in it and below exactly once with its tags, those of a file that cannot be read left out with a warning, and errors of the script's own reach it.",
 ["inputs","configurations","fault_sequences"],"every text, genre, track number, speed and enhanced genre up to the bounds, plain and enhanced tags, trees of three files of five kinds each, a failure of any file operation",
 "Which field lands where, and in which encoding, depends on the contents and on what other fields are there; tests read one tag in ASCII.",
 ["scribbu/scheme.cc","scribbu/id3v1.cc","scribbu/id3v1.hh"],
 [("ID3v1 bindings","read_id3v1_tag and write_id3v1_tag in scribbu/scheme.cc"),("walking","with_track_in in scribbu/scheme.cc")],["slots of the objects scripts hold","file"],["slots after reading; file after writing; calls of the script's procedure"])

p("P31","An option set in the environment acts as if given on the command line",
 "Each environment variable a command reads has exactly the effect of the option it stands for: the same files, output and status as with the option on the command line, for every spelling of yes; a spelling of no has no effect, and neither has any other variable. What the command line gives wins over the environment. A value that makes no sense is refused and changes no file.",
 ["configurations","inputs"],"every variable of the six commands that read any, every spelling of yes and no, arbitrary other variables, files with and without either kind of tag and with arbitrary text",
 "The effect of a variable shows only for some files and some commands; the tests set none.",
 ["src/genre.cc","src/text.cc","src/xtag.cc","src/popm.cc","src/rename.cc","src/dump.cc"],
 [("tables of variables","ENV_OPTS in the handlers of src/genre.cc, src/text.cc, src/xtag.cc, src/popm.cc, src/rename.cc and src/dump.cc")],["files","environment"],["files, output and exit status after the command"])

open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
