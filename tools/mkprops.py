"""Writes properties.jsonl (the text of every property lives here)."""
import json
import os

P = "src/simplemseed/"
OUT = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
             anchors=dict(files=[P + f for f in files.split()],
                          mechanism=[dict(name=n, where=P + w) for n, w in mech]))
    OUT.append(d)


# ---------------------------------------------------------------- codecs
prop("C01", "Steim1 compression is lossless",
     "For every non-empty sequence of 32-bit signed samples, Steim1 encoding with no frame limit "
     "succeeds and decoding the encoded bytes with the original sample count returns exactly the "
     "original samples, whatever the differences between neighbours (including differences that "
     "overflow 32 bits) and however many frames are used.",
     "inputs", "all int32 sample vectors",
     "tests round-trip a few fixed vectors; packing depends on every combination of difference "
     "sizes, word boundaries and frame boundaries",
     "steim1.py steimframeblock.py",
     [("encodeSteim1FrameBlock", "steim1.py"), ("decodeSteim1 / extractSteim1Samples", "steim1.py"),
      ("SteimFrameBlock.addEncodedWord", "steimframeblock.py")])
prop("C02", "Steim2 compression is lossless or refused",
     "For every non-empty sequence of 32-bit signed samples, Steim2 encoding with no frame limit "
     "either yields bytes that decode to exactly the original samples or is refused with a codec "
     "exception; it is refused only when some difference between neighbouring samples (taken as a "
     "32-bit difference, the first one against zero) does not fit in 30 bits.",
     "inputs", "all int32 sample vectors",
     "seven packings with mixed widths, negative boundary values and frame boundaries give far "
     "more cases than the fixed vectors in the tests",
     "steim2.py steimframeblock.py",
     [("encodeSteim2FrameBlock / bitsForPack / minBitsNeeded / steimPackWord", "steim2.py"),
      ("decodeSteim2 / extractSteim2Samples / extractDnibValues", "steim2.py")])
prop("C03", "Encoded Steim frames conform to the format",
     "Every Steim1 or Steim2 byte block the encoders produce conforms to the published format: it "
     "is a whole number of 64 byte frames, the first frame carries the first sample and the last "
     "encoded sample in words 1 and 2, every control word announces exactly how its data word is "
     "split, and an independent decoder written from the format reads back the encoded samples "
     "with nothing left over but padding.",
     "inputs", "all int32 sample vectors and frame limits",
     "a self round trip hides errors that encoder and decoder share; other software must be able "
     "to read the frames",
     "steim1.py steim2.py steimframeblock.py",
     [("SteimFrameBlock.pack / setXsubN / addEncodingNibble", "steimframeblock.py"),
      ("encodeSteim1FrameBlock", "steim1.py"), ("encodeSteim2FrameBlock", "steim2.py")])
prop("C04", "Steim decoders follow the format on any frames",
     "For arbitrary bytes, Steim1 and Steim2 decoding either returns exactly the requested number "
     "of samples with the values the published format gives (X0 plus the running sum of "
     "differences, 32-bit arithmetic), or raises a codec exception; it raises when the length is "
     "not a whole number of frames, when the frames hold fewer samples than requested, or when a "
     "Steim2 control code is undefined, and never fails in any other way.",
     "inputs", "all frame contents, sample counts and lengths within the bound",
     "tests decode frames produced by well behaved encoders; the control words of a foreign or "
     "damaged record can take any value",
     "steim1.py steim2.py",
     [("decodeSteim1 / extractSteim1Samples", "steim1.py"),
      ("decodeSteim2 / extractSteim2Samples", "steim2.py")])
prop("C05", "Size-limited Steim encoding splits a series without loss",
     "When a series is encoded into blocks limited to a number of frames, each block stays within "
     "its limit, reports exactly how many samples it holds (padding within the last word of the "
     "series aside), states the first and last of them and the difference of the first to the given "
     "bias, decodes to exactly that many samples, "
     "and continuing Steim1 encoding at the reported offset (or Steim2 on the remaining samples, "
     "with the previous sample as bias) until the series ends yields blocks whose samples "
     "concatenate to the original series.",
     "inputs histories", "all int32 series, frame limits and continuation points within the bound",
     "the tests split one fixed series; loss occurs only where a block fills in the middle of a "
     "word of particular width",
     "steim1.py steim2.py steimframeblock.py",
     [("SteimFrameBlock.addEncodedWord (full detection)", "steimframeblock.py"),
      ("encodeSteim1FrameBlock offset/bias", "steim1.py"),
      ("encodeSteim2FrameBlock bias", "steim2.py")])
prop("C06", "Values a Steim encoding cannot hold are refused, never altered",
     "Steim encoding of sample containers other than 32-bit arrays (64-bit, unsigned and narrower "
     "integer arrays, and lists of integers) either is lossless or is refused with a codec "
     "exception: a value outside the 32-bit signed range is always refused, every value inside it "
     "is handled as it would be in a 32-bit array, and floating point samples are refused.",
     "inputs", "all values in all integer dtypes and lists within the bound",
     "tests try one too-large positive value; negative extremes, wrap-around of narrow types and "
     "middle elements are not sampled",
     "steim1.py steim2.py mseed3.py",
     [("dtype/range gate in encodeSteim1FrameBlock", "steim1.py"),
      ("dtype/range gate in encodeSteim2FrameBlock", "steim2.py")])
prop("C07", "Primitive encodings round trip bit for bit",
     "Encoding 16-bit, 32-bit integer or 32-bit, 64-bit floating samples and decompressing with "
     "the same encoding and byte order returns the same values bit for bit, in both byte orders, "
     "with the bytes laid out as the encoding prescribes; a payload too short for the requested "
     "number of samples is refused with a codec exception instead of giving fewer or invented "
     "samples, the mappings between encodings and numpy or array types are mutually inverse, and the "
     "readers of single values give the value whose bytes stand at the offset.",
     "inputs configurations", "all sample bit patterns, encodings, byte orders and payload lengths",
     "tests use a handful of values, mostly little endian",
     "seedcodec.py",
     [("encode", "seedcodec.py"), ("decompress", "seedcodec.py"),
      ("EncodedDataSegment.decode", "seedcodec.py"), ("encoding/dtype maps", "seedcodec.py")])

prop("C08", "Encoding codes and data types correspond",
     "For every encoding code, the helpers agree: the four primitive codes map to a numpy type and an array type "
     "code of the right kind and size and back to the same code, every other code, data type, array type or item "
     "size is refused with the unsupported compression exception, the predicates for floating point, primitive and "
     "decompressable codes hold for exactly the codes they name, and decompression and encoding accept exactly the "
     "codes announced.",
     "inputs", "all encoding codes, numpy types, array types and item sizes",
     "tests use the handful of encodings of their sample files; a wrong row shows only for a code or type no file has",
     "seedcodec.py",
     [("arrayTypecodeFromMSeed / mseed3EncodingFromArrayTypecode", "seedcodec.py"),
      ("mseed3EncodingFromNumpyDT / numpyDTFromMseed3Encoding", "seedcodec.py"),
      ("canDecompress / isPrimitiveCompression / isFloatCompression", "seedcodec.py")])
# ---------------------------------------------------------------- miniseed3
prop("M01", "miniSEED3 fixed header layout and round trip",
     "Packing a miniSEED3 header writes every field at its specified little-endian position, and "
     "unpacking the fixed header of any 40 bytes that start with the MS3 signature yields fields "
     "that pack back to the same bytes; anything whose signature or format version is different is "
     "rejected with a miniSEED3 exception.",
     "inputs", "all header field values and all 40 byte strings",
     "a swapped or sign-confused field shows only for values the fixtures do not contain",
     "mseed3.py", [("MSeed3Header.pack", "mseed3.py"), ("unpackMSeed3FixedHeader", "mseed3.py")])
prop("M02", "miniSEED3 record round trip",
     "Packing a miniSEED3 record and unpacking the bytes returns an equal record: the header "
     "fields, the identifier (any Unicode text), the extra headers, the encoding and the samples; "
     "the recorded lengths match the bytes, and the size a record reports once it is packed or read "
     "equals the number of its bytes.",
     "inputs configurations", "header values, identifiers, extra headers, sample types and values",
     "tests pack a few ASCII-only records; byte length and character length differ only for "
     "non-ASCII text, sizes only for some payloads",
     "mseed3.py seedcodec.py",
     [("MSeed3Record.pack / getSize", "mseed3.py"), ("unpackMSeed3Record", "mseed3.py")])
prop("M03", "miniSEED3 CRC detects corruption",
     "Every record the library packs carries the CRC-32C of the record with the CRC field zeroed, "
     "and reading accepts it; any record altered by a burst of at most 32 bits, within the header "
     "fields before the CRC (signature and version aside), within the CRC field itself, or within "
     "the publication version, identifier, extra headers and data (the length fields aside), is "
     "never returned as valid while CRC checking is on, through either the single-record or the "
     "stream reader.",
     "inputs fault_sequences", "record contents and all error bursts up to 32 bits at any position",
     "tests flip nothing; detection is a statement over every error pattern",
     "mseed3.py",
     [("MSeed3Record.pack", "mseed3.py"), ("unpackMSeed3Record check_crc", "mseed3.py"),
      ("readMSeed3Records check_crc", "mseed3.py")])
prop("M04", "Truncated or malformed miniSEED3 input is rejected",
     "A miniSEED3 record cut short at any byte is never returned as a record: the single-record "
     "reader raises a miniSEED3 exception, and the stream reader yields the complete records "
     "before it and then either raises or stops, whether or not CRC checking is on.",
     "inputs crash_points", "record contents and every cut position",
     "tests read complete files only",
     "mseed3.py", [("unpackMSeed3FixedHeader", "mseed3.py"), ("unpackMSeed3Record", "mseed3.py"),
                   ("readMSeed3Records", "mseed3.py")])
prop("M05", "Stream reading returns every miniSEED3 record in order, filtered exactly",
     "Reading a stream that is a concatenation of packed miniSEED3 records yields exactly those "
     "records, in order, with equal contents; with a source id pattern it yields exactly those "
     "whose identifier the pattern matches, regardless of the records in between.",
     "inputs histories", "sequences of records with arbitrary identifiers, sizes and payloads",
     "tests read files with one kind of record; skipping the wrong number of bytes needs "
     "particular lengths of skipped records",
     "mseed3.py", [("readMSeed3Records", "mseed3.py")])
prop("M06", "miniSEED3 start times are kept to the nanosecond field and consistent",
     "Setting the start time of a miniSEED3 header from a datetime (with or without a timezone) or "
     "an ISO string and reading it back gives the same instant to the microsecond with every field "
     "in its legal range, for every year, leap year and day boundary; the end time equals the "
     "start time plus one sample period less than the sample count, and any header whose time "
     "fields are legal, including a leap second, has a readable start time.",
     "inputs", "all instants of years 1 to 9999, UTC offsets, sample rates and counts",
     "day-of-year, leap year and microsecond/nanosecond conversions fail only at boundaries",
     "mseed3.py", [("MSeed3Header.starttime setter/getter", "mseed3.py"),
                   ("MSeed3Header.endtime", "mseed3.py")])
prop("M07", "Records merge only when contiguous and alike",
     "Two miniSEED3 records are judged mergeable only if their identifiers, sample rates, "
     "publication versions and encodings agree and the second starts after the end time of the "
     "first and less than the tolerance (half a sample period by default) later than the expected "
     "time of the next sample; merging then (for data that can be decompressed to numbers) gives "
     "one record that starts when the first starts and holds the samples of the first followed by "
     "those of the second, and otherwise merging returns both unchanged; the records given keep "
     "their contents, whatever is later done to the merged one.",
     "inputs", "pairs of records with arbitrary start times, rates, counts, ids and samples",
     "tests merge two adjacent halves of one record",
     "mseed3.py", [("areCompatible", "mseed3.py"), ("mseed3merge", "mseed3.py")])
prop("M08", "Merged reading neither loses nor repeats samples",
     "Reading a stream with merging on yields records whose samples, taken per source, are exactly "
     "the samples of the stream's records in order: nothing is lost, repeated or attributed to "
     "another source or time, and every yielded record reports the count of samples it holds.",
     "histories inputs", "sequences of records, mergeable or not, in any arrangement",
     "tests merge one continuous file; losing a pending record needs particular sequences",
     "mseed3.py mseed3merge.py",
     [("readMSeed3Records merge", "mseed3.py"), ("mseed3merge", "mseed3.py")])
prop("M09", "Extra header edits survive and clones are independent",
     "Extra headers set on a record are what reading it back, packing and unpacking it returns, "
     "for any JSON object; the extra header length recorded in the packed bytes follows every change, "
     "an empty object or a deletion leaves no extra headers, and changing a clone of a record never "
     "changes the original.",
     "inputs histories", "extra header objects and sequences of edits",
     "tests set one fixed dictionary",
     "mseed3.py", [("MSeed3Record.eh", "mseed3.py"), ("MSeed3Record.clone / MSeed3Header.clone",
                                                    "mseed3.py")])
prop("M10", "Editing extra headers in files keeps everything else",
     "Setting an extra header value in miniSEED3 files by JSON pointer keeps every record of the "
     "file, in order: selected records get exactly the requested value at the pointer and are "
     "otherwise unchanged, records not selected by the source id pattern stay byte for byte, and "
     "at any interruption the original data remains available in full.",
     "inputs crash_points", "file contents, pointers, values, patterns and interruption points",
     "tests do not run the editing command",
     "mseed3details.py", [("do_set_eh", "mseed3details.py"), ("do_get_eh", "mseed3details.py")])
prop("M11", "Sample rate and period are two views of one value",
     "Setting the sample rate or the sample period of a miniSEED3 header and reading the rate and "
     "the period back gives consistent values: the one that was set is returned as set, the other "
     "is its reciprocal, a negative stored value means a period and a non-negative one a rate, and "
     "a record with rate zero can be read and summarised without failing.",
     "inputs", "all finite double values",
     "tests use a few rates",
     "mseed3.py", [("MSeed3Header.sampleRate / samplePeriod", "mseed3.py")])
prop("M12", "Querying extra headers in files reports exactly the matching records' values",
     "Asking for an extra header of miniSEED3 files by JSON pointer reports, for --getall, one line for "
     "each record whose identifier the pattern matches, in the order of files and records, and for "
     "--get only the first of them: the value at the pointer as JSON, or an empty line (a note when "
     "printed) where a record has no such value; the files are not changed.",
     "inputs histories", "sequences of records, extra headers, pointers, patterns and outputs",
     "no test runs the query command",
     "mseed3details.py", [("do_get_eh", "mseed3details.py"), ("do_details", "mseed3details.py")])

# ---------------------------------------------------------------- miniseed2
prop("D01", "miniSEED2 fixed header layout and round trip",
     "Packing a miniSEED2 header writes every field at its specified position in the header's byte "
     "order, and unpacking returns the same codes, sequence number, quality, flags, start time, "
     "sample count, time correction and rate factors, for both byte orders; fewer bytes than a fixed "
     "header are rejected with a miniSEED exception.",
     "inputs", "all header field values in both byte orders",
     "a dropped field or wrong byte order shows only for values that fixtures do not contain",
     "miniseed.py", [("MiniseedHeader.pack", "miniseed.py"), ("unpackMiniseedHeader",
                                                            "miniseed.py")])
prop("D02", "miniSEED2 rate factor and multiplier mean the right sample rate",
     "The sample rate read from a miniSEED2 header is the one its signed factor and multiplier "
     "define (positive: rate or multiplication, negative: period or division, zero: no rate), for "
     "every pair; and the pair chosen for a given sample rate reads back as that rate to within "
     "the precision the pair can express (one part in 16000).",
     "inputs", "all 2^32 factor/multiplier pairs, and sample rates",
     "tests use a few common rates; the four sign combinations and zeros are not sampled",
     "miniseed.py", [("unpackMiniseedHeader", "miniseed.py"),
                     ("calcSeedMultipilerFactor", "miniseed.py"), ("setSampleRate",
                                                                  "miniseed.py")])
prop("D03", "miniSEED2 record round trip at the exact record length",
     "Packing a miniSEED2 record gives exactly the power of two record length it declares, and "
     "unpacking returns an equal record: header fields, every blockette, encoding and samples; "
     "data that does not fit in the record is refused, never cut.",
     "inputs configurations", "header values, blockettes, encodings, samples and record lengths",
     "tests pack one record with default blockettes",
     "miniseed.py", [("MiniseedRecord.pack / packBlockette* / packData", "miniseed.py"),
                     ("unpackMiniseedRecord / unpackBlockette*", "miniseed.py")])
prop("D04", "miniSEED2 byte order is detected from the start year",
     "For every record whose start year lies between 1801 and 2054 the byte order of the fixed "
     "header is recognised correctly, whatever the other fields, so both byte orders of the same "
     "header unpack to equal values; a header whose start year is below 1792 or "
     "above 2303 in both orders is rejected.",
     "inputs", "all start times of years 1801 to 2054 and all other header bytes",
     "tests contain files from a few years",
     "miniseed.py", [("unpackFixedHeaderGuessByteOrder", "miniseed.py")])
prop("D05", "miniSEED2 times are right to the last field",
     "The start time of a miniSEED2 record is the one its day-of-year time (to 0.1 ms) and the "
     "signed microsecond field of a blockette 1001 define, including leap days and leap seconds; a "
     "start time given to a header reads back to the resolution of the header, and the end time and "
     "the next start time follow from the sample period (to the microsecond) and the sample count.",
     "inputs", "all legal BTIMEs, microsecond corrections, rates and counts",
     "year/day boundaries and negative corrections are not sampled",
     "miniseed.py", [("MiniseedHeader.setStartTime / packBTime", "miniseed.py"),
                     ("MiniseedRecord.starttime / endtime / next_starttime", "miniseed.py"),
                     ("unpackBlockette1001", "miniseed.py")])
prop("D06", "Stream reading returns every miniSEED2 record in order, filtered exactly",
     "Reading a stream of miniSEED2 records of any power of two lengths yields exactly those "
     "records in order; with a source id pattern it yields exactly those it matches; a truncated "
     "last record is never returned as a record.",
     "inputs histories crash_points", "sequences of records of differing lengths, and every cut",
     "tests read whole files of equal records",
     "miniseed.py", [("readMiniseed2Records", "miniseed.py")])

# ---------------------------------------------------------------- conversion
prop("V01", "miniSEED2 to miniSEED3 conversion keeps time, identity and samples",
     "Converting a miniSEED2 record to miniSEED3 gives a record with the same start time to the "
     "microsecond, the same sample rate, the identifier equivalent to the network, station, "
     "location and channel codes, the same number of samples and exactly the same sample values, "
     "for both byte orders and every encoding.",
     "inputs configurations", "record times, rates, codes, encodings, byte orders and samples",
     "tests convert a few Steim files",
     "mseed2to3.py", [("mseed2to3", "mseed2to3.py")])
prop("V02", "miniSEED2 flags and quality are carried over in miniSEED3",
     "Conversion sets the miniSEED3 flags for calibration, questionable time and locked clock from "
     "the activity, data quality and input/output flag bits that the miniSEED3 specification maps "
     "to them and sets no other flag; a quality indicator other than D and a time quality in a "
     "blockette 1001 are kept in the FDSN extra headers, and the publication version is unknown.",
     "inputs", "all flag bytes and quality codes",
     "the fixtures have all flags clear",
     "mseed2to3.py", [("mseed2to3 flags", "mseed2to3.py")])

prop("R01", "Listings report every record once with its values and the right totals",
     "The summary and detail listings of miniSEED2 and miniSEED3 files report every record of every "
     "file exactly once and in order, each with its own identifier, times, rate, sample count, "
     "encoding, sizes, flags, extra headers and sample values, and the totals of records, samples, "
     "bytes and identifiers they end with are those of the records.",
     "inputs histories", "sequences of records with arbitrary start times, flags and contents",
     "no test looks at what the listings say",
     "mseed3details.py mseed2details.py mseed3.py miniseed.py",
     [("do_details / do_summary", "mseed3details.py"), ("mseed2details main", "mseed2details.py"),
      ("MSeed3Record.summary / details", "mseed3.py"), ("MiniseedRecord.summary / details", "miniseed.py")])

# ---------------------------------------------------------------- identifiers
prop("S01", "Source identifiers survive parsing and formatting",
     "Formatting any source identifier and parsing the text gives an equal identifier, at network, "
     "station, location and channel level, and formatting what was parsed reproduces the text; "
     "text with another prefix or a wrong number of fields is rejected with the library's source "
     "id exception.",
     "inputs", "all code strings within the bound and all texts within the bound",
     "tests use typical codes; empty fields and odd separators are not sampled",
     "fdsnsourceid.py", [("FDSNSourceId.parse / __str__", "fdsnsourceid.py")])
prop("S02", "Source identifier validation is exact",
     "Validation accepts an identifier exactly when every code is within the length and the "
     "character set the FDSN specification allows (ASCII upper case letters and digits, plus dash "
     "where permitted) and names the first offending part otherwise.",
     "inputs", "all code strings up to just beyond the allowed lengths, any Unicode characters",
     "only a few invalid examples are tested; regular expressions accept more than intended at "
     "line ends and outside ASCII",
     "fdsnsourceid.py", [("validate", "fdsnsourceid.py"), ("code regular expressions",
                                                         "fdsnsourceid.py")])
prop("S03", "SEED codes and source identifiers correspond one to one",
     "Turning network, station, location and channel codes into a source identifier and back "
     "returns the original codes, for three-character channels and for the longer "
     "band_source_subsource form; an identifier turned into NSLC codes (or their text) and back is "
     "equal to the original, also without a band or subsource code; a channel or text of any other "
     "form is refused with the library's source id exception, never shortened; a two-character "
     "temporary network code (and no other code) is extended with the start year when one is "
     "given, which must be four digits.",
     "inputs", "all code strings within the bound and start years",
     "tests use typical channel codes",
     "fdsnsourceid.py", [("fromNslc / parseNslc / asNslc / shortChannelCode", "fdsnsourceid.py")])
prop("S04", "Identifier hierarchy and equality are coherent",
     "Moving from a channel identifier to its location, station and network and building down "
     "again keeps every code; identifiers (of codes without the separator) are equal exactly when all their codes are equal, an "
     "identifier of one level never equals one of another level or another type, and equal "
     "identifiers format alike.",
     "inputs", "pairs of identifiers with arbitrary codes",
     "equality is tested on a few pairs; a forgotten component shows only when the others agree",
     "fdsnsourceid.py", [("__eq__ of the source id classes", "fdsnsourceid.py"),
                         ("locationSourceId / stationSourceId / networkSourceId / create*",
                          "fdsnsourceid.py")])
prop("S05", "The band code for a rate is the one of the code table",
     "For every sample rate (or period) and response lower bound, the band code chosen is the one "
     "whose interval in the FDSN band code table contains them, with boundary rates going to the "
     "side the table states, and rates that are not positive numbers are handled as documented.",
     "inputs", "all double sample rates and response corners",
     "tests try rates inside the intervals; boundaries of twenty intervals are not sampled",
     "fdsnsourceid.py", [("bandCodeForRate", "fdsnsourceid.py"), ("bandcode.json",
                                                                 "bandcode.json")])
prop("S06", "Temporary network codes are recognised exactly",
     "A network is recognised as temporary by the two-character convention (first character a "
     "digit or X, Y, Z), by the historical convention with start year (neither for the test network "
     "XX), or by the FDSN convention ending in a four digit year, exactly as specified, for every "
     "network code.",
     "inputs", "all network codes within the bound and start years",
     "tests use a few codes",
     "fdsnsourceid.py", [("isTempNetConvention / isTempNetHistorical / isSeedTempNet / isTemporary",
                          "fdsnsourceid.py")])
prop("S07", "Identifiers and codes are described as they are",
     "The source id command prints every identifier that can be parsed, at any level and with any "
     "codes, one line for each of its codes and exactly as parsed; band and source codes are described "
     "from the FDSN tables when these contain them and never as another code, and the bands listed for "
     "a sample rate are those chosen for a broadband and a short period response.",
     "inputs", "all codes within the bound",
     "tests describe one identifier; partial identifiers and codes without description are not tried",
     "fdsnsourceid.py bandcode.json sourcecode.json",
     [("main", "fdsnsourceid.py"), ("bandCodeInfo / bandCodeDescribe", "fdsnsourceid.py"),
      ("sourceCodeInfo / sourceCodeDescribe", "fdsnsourceid.py")])


if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for d in OUT:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    print(len(OUT))
