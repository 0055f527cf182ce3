"""Descriptive parts of the evidence and the manifest, and the time budgets (quick, thorough seconds
for symbolic execution, after the build)."""
LEVEL = "model_checking"
BUDGET = {}
DEBUG = {"C22"}
ASSUMPTIONS = [
    "the LLVM IR that rustc 1.99 emits (release profile with overflow checks and debug assertions, fat LTO) means what the executor symx takes it to mean; finished paths are rerun natively to check this",
    "Z3 answers correctly; functions of at most 16 symbolic bits are also decided by truth table and a disagreement is an error",
    "memory allocation succeeds",
]
MORE = {}
BOUNDS = {
    "C01": "versions 1-40, levels L M Q H, masks 0-7; all payload bits symbolic (7 bits a character) for versions 1-7 at every level and for larger ones as time allows; one or two symbolic characters at random places for every version and level; payload lengths full, full-1, 1 and random",
    "C02": "all 32 format words; first copy: every pattern of up to three flips at once, second copy free; first copy beyond repair: patterns over up to 4 (thorough: 8) symbolic modules around random bases; second copy likewise, or free over its 15 modules; versions 1-40",
    "C03": "every version and level; up to the block's capacity of damaged codewords at random places in one to three blocks with 4-8 symbolic bits of damage value, or a damaged codeword at one of 8 symbolic places with symbolic value; all 255 values at all places of one-block symbols of versions 1-2",
    "C04": "every version and level; more damaged codewords than the capacity (up to twice), 4-5 symbolic bits in one of them or 5 bits in each of two",
    "C05": "every version and level; up to the capacity of damaged codewords with 4-6 symbolic bits of damage in one to four blocks, or at one of 8 symbolic places; every block of large symbols damaged at capacity, most codewords in all eight bits",
    "C06": "damaged codewords within and beyond capacity, flipped format modules, arbitrary contents with about 5 symbolic bits",
    "C07": "up to 10 symbolic digits, up to 7 symbolic alphanumeric characters; one to four segments; version classes 1-9, 10-26, 27-40; symbols filled to the last bits; all versions sampled for the full symbols",
    "C08": "every value of every kind of group (3, 2, 1 digits; pair, single character); every mode; symbolic length bits; arbitrary contents of all versions with about 5 symbolic bits",
    "C09": "one or two (thorough: three) fully symbolic bytes, or lead byte classes with symbolic followers, at all places of segments up to the symbol's capacity",
    "C10": "grids of versions 0-42, 100, 300; all-white, all-black, random and valid base grids with up to 16 symbolic modules in format, timing or data areas; contents with 5 symbolic bits; error messages of up to 80 symbolic bytes",
    "C11": "data of up to 3 symbolic bytes and up to 3 requests (thorough: 4) of any width (0-255) after up to 6 concrete requests on longer data",
    "C12": "versions 0-45, 60, 61, 100 and 145 with every pixel byte symbolic, sampled larger ones up to 260 (thorough: 600) with 200 symbolic bytes; symbolic coordinates for versions 1-3",
    "C13": "images of 0x0 to 24x24 pixels with every grey value of every pixel symbolic, up to 300x300 with up to 6 symbolic pixels; block sizes 1-40 and block mean sizes 1-32 (symbolic ranges of up to 64 pairs in a job), and values up to 2^32-1",
    "C14": "images up to 37x30 with every grey value of every pixel symbolic; up to 120x120 with up to 4 fully symbolic pixels (blocks of up to 100x100 pixels) over random, light, dark and near-threshold backgrounds; single colour and alpha channels symbolic; symbolic block sizes 1-8 with block mean sizes 1-8",
    "C15": "every version, four turns, scales 2-16, margins 0-29 pixels on each side; 1-8 symbolic data modules of symbols with sampled content, also with large areas of one colour between the finders",
    "C16": "images of up to 14 (thorough: 16) pixels with every pixel symbolic; images up to about 200x200 with up to four finder patterns (exact, distorted, skewed, inverted, cut off, too far or too near) and 4-9 rectangles of pixels each present or not by a symbolic bit",
    "C17": "every version, four turns, scales 2-17, margins 0-29 pixels, centres in both half pixel conventions; every module outside the function patterns symbolic",
    "C18": "versions 0-40 and sampled ones up to 1000; images from 0x0 up to the symbol's size with symbols, alignment patterns, noise, stripes and up to 2 symbolic pixels; bars of black or white from the alignment pattern to each edge; one to three of the six coordinates symbolic with 2-8 bits over steps from 0.001 to 1e300, or chosen among 16 extreme values",
    "C21": "versions 1-40 (quick: all up to 20, every fourth above), four turns, scales 2-6, margins 0-29 pixels; 1-4 symbolic payload bits",
    "C22": "the families of C16, C18 and (versions 1-12, every fifth above) C15 with 1-2 symbolic modules, with directories that can be made and ones that cannot",
    "C24": "two to four symbols of versions 1-15 at scales 2-8 (mixed in one picture), beside or below each other, 4-45 modules apart, in all turns; 0-3 symbolic data modules (or payload bits, for the whole library) of each",
    "C25": "versions 1-10, 14, 20 (thorough: up to 40), sampled scales from 6 to 10 (real numbers), any angle, sampled positions between pixels; every module outside the function patterns symbolic",
    "C26": "versions 1-10, sampled scales from 6 to 10, angles up to five degrees from upright or a quarter turn; 1-3 symbolic data modules of symbols with sampled content",
    "C30": "every 8 and 16 bit kind of DynamicImage, parts of an RgbaImage or of a DynamicImage, and an image type of the harness (a mirrored window); up to 5 pixels with symbolic bits for binarisation, 1-3 symbolic payload bits for decoding",
    "C29": "versions 1-8, sampled scales from 4 to 8 (real numbers), upright, in quarter turns, or (version 2 and up) up to five degrees off; 1-3 symbolic payload bits of sampled texts",
    "C27": "every version and level, all modules that carry neither codeword nor format bits symbolic at once; damaged codewords, or a ruined copy of the format information, at the same time for sampled ones",
    "C28": "sequences of up to five calls with the same objects: versions, levels, sizes and contents differ from call to call; up to 4 symbolic bits in the calls before the last",
    "C19": "up to 3 (thorough: 5) locations with every combination of extraction and decoding outcomes and all carried bytes symbolic, a symbolic number of locations up to 15, up to 64 locations with sampled outcomes and symbolic carried bytes; up to 3 decodes with the same decoder",
    "C20": "every sequence of up to 5 (thorough: 7) settings after every concrete initial choice of roles, set one by one or chained; default builders with every subset of replaced roles, once or twice, on a 3x2 image with symbolic pixels",
    "C23": "all 64-bit floating point values of all operands",
}
OUTSIDE = {
    "C01": "payload texts other than 7-bit characters (see C09); combinations of all payload bits for versions above 20 are only decided where the time budget reaches",
    "C02": "damage outside the format modules at the same time; for a first copy beyond repair only the symbolic modules vary around sampled bases",
    "C03": "more than 16 simultaneously symbolic damage bits; the remaining damaged codewords have sampled values and places",
    "C04": "more than 10 simultaneously symbolic damage bits; words that no job's base and symbolic bits reach",
    "C05": "as C03",
    "C06": "inputs beyond the listed families",
    "C07": "longer symbolic runs; all other characters are sampled",
    "C08": "contents that differ from the sampled ones in more than the symbolic bits",
    "C09": "more than three symbolic bytes at once",
    "C10": "grids that differ from the base grids in more than the symbolic modules; QRData whose fields contradict each other",
    "C11": "longer request sequences and longer symbolic data",
    "C12": "larger versions (the code has no version dependent branch)",
    "C13": "larger images; images of other types than RgbaImage",
    "C14": "larger images with all pixels symbolic; pixels with independent symbolic red, green and blue",
    "C15": "data modules that a job leaves at their sampled value; scales above 16; pictures in which something else resembles a finder pattern",
    "C16": "pictures outside the listed families; more than 16 symbolic bits",
    "C17": "scale 1; skewed pictures",
    "C18": "coordinates with more than 8 symbolic bits; infinite coordinates; negative sampling positions, for which only absence of panics and completeness of the grid are decided",
    "C21": "payload bits that a job leaves at their sampled value; pictures in which something else resembles a finder pattern",
    "C22": "image files are never written: the image crate's file formats are left out of the build, so saving a debug image always fails (after naming it)",
    "C24": "symbols closer than four modules or overlapping; data modules that a job leaves at their sampled value",
    "C25": "scales below 6; angles, scales and positions between the sampled ones; perspective",
    "C26": "larger angles; scales below 6; symbols without a quiet zone of four modules; data modules that a job leaves at their sampled value",
    "C30": "floating point images; 16 bit values that are not a multiple of 257; pixels that a job leaves at their sampled value",
    "C29": "payload bits that a job leaves at their sampled value; scales, angles and positions between the sampled ones",
    "C27": "nothing for undamaged symbols with sampled text of which four bits are symbolic (see C01 for the text); combinations with damage that are not sampled",
    "C28": "longer histories; concurrent calls",
    "C19": "more locations with symbolic outcomes; components that panic",
    "C20": "longer sequences of settings",
    "C23": "nothing",
}
NOT_APPLICABLE = {}
