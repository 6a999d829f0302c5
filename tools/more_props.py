prop("C04", "A string description, inline or by reference, resolves to the string it describes",
 "Reading the description of a stored string consumes exactly the bytes of that string, and resolving the description later gives the same text as reading the string directly. A string block is either the string itself or a reference, relative to its image, to a string elsewhere; following a reference leaves the cursor right after the reference. A negative length or a reference before the start of the data is an error.",
 ["inputs"], "every byte content, every length prefix and length value, every reference offset, every truncation",
 "tests use a few well-formed inline and referenced strings; malformed lengths and references, and the cursor after them, are never exercised",
 ["src/reader.rs", "src/property/string.rs"],
 [("read_wz_string_meta / block_meta", "src/reader.rs"), ("read_wz_string_block", "src/reader.rs"), ("WzString::get_string", "src/property/string.rs")])

prop("C08", "A PKG1 game version is matched to the version a file states by its hash",
 "The hash of a game version is the fold of its decimal characters (h*32 + character + 1 in 32 bits, from the first to the last), for every version number. A candidate version matches the encrypted version of a file exactly when it is that number itself or when the inverted xor of the four bytes of its hash is; the candidates are offered once each, in order, from the first to the last of the range, with the hash when they match and 0 when they do not.",
 ["inputs"], "every version number, every encrypted version, every candidate range",
 "tests walk five candidates from zero; collisions, large or negative versions and the ends of a range are never met",
 ["src/util/version/pkg1.rs"],
 [("VersionGen", "src/util/version/pkg1.rs"), ("version detection", "src/file.rs")])

prop("C09", "A file header is recognised and read at its documented positions, and nothing else is accepted",
 "A file starting with PKG1 or PKG2 has its content size (64 bits at 4), its content start (32 bits at 12) and, at the content start, the encrypted version (PKG1) or the two 32-bit hashes (PKG2). A PKG1 file has no encrypted version when the two bytes exceed 0xff, when the file states less than two bytes of content, or when they are 0x80 followed by a plausible entry count (positive, at most 0xffff, low byte zero); the directory then starts right at the content start, otherwise two bytes later. Any other file is accepted only as a scrambled header, when the content size it states (in the scattered bytes of the 150-byte form, else of the 68-byte form) is the number of bytes after the header; its hashes are the documented scattered bytes. A header that is cut short is an error, never a panic.",
 ["inputs"], "every header content, every position of the content start, every truncation",
 "tests read a few complete headers; boundary positions, cut files and near-miss scrambled headers are never tried",
 ["src/header.rs"],
 [("WzHeader::read_from_buf", "src/header.rs"), ("WzHeader::get_encrypted_version", "src/header.rs"), ("scrambled headers", "src/header.rs")])

prop("C12", "A canvas decodes to the pixels its format code describes, for every stored format and size",
 "Decoding a canvas yields an image of its stated width and height in which each pixel is the documented conversion of the stored texel: 4-bit channels are widened by 17, 5- and 6-bit channels by repeating their high bits, 10-bit channels by their high 8 bits, the DXT3/DXT5 blocks by the BC2/BC3 colour and alpha rules (blocks row by row, width rounded up to four), the 517 format by one 565 colour for each 16x16 square. The format code is the sum of the two stored format fields; unknown codes are an error.",
 ["inputs"], "every texel value, every pixel position, sizes that are not a multiple of the block size",
 "tests convert a handful of colours; no test decodes a whole canvas of most formats, and none has a partial block",
 ["src/property/png.rs", "src/util/color.rs"],
 [("WzPng::extract_png", "src/property/png.rs"), ("DXT block tables", "src/property/png.rs"), ("colour conversions", "src/util/color.rs")])

prop("C10", "Every property record is read as the value it encodes, and reading goes on right after it",
 "A list of properties is a compressed count and that many records: a name, a kind byte and a payload. Kind 0 is a null, 2 and 11 a 16-bit integer, 3 and 19 a compressed 32-bit integer, 20 a compressed 64-bit integer, 4 a float (four bytes after 0x80, otherwise the byte itself as a number), 5 a double, 8 a string block, 9 a sized extended record naming its type: Property, Canvas, Shape2D#Convex2D, Shape2D#Vector2D, Sound_DX8, UOL, RawData and Canvas#Video. Each record becomes one node with the record's name, the given parent and the stored value, children included, in the stored order; each UOL record is reported as a link. After a sized record the next one is read at the end its size states, whatever its content; an unknown extended type becomes a null node, any other kind byte is an error naming it.",
 ["inputs"], "every payload value of every kind of record, inline and compressed forms",
 "the tests of the repository build trees by hand; no test parses property records at all",
 ["src/util/parse_property.rs", "src/node.rs"],
 [("parse_property_list", "src/util/parse_property.rs"), ("parse_property_node", "src/util/parse_property.rs"), ("parse_more", "src/util/parse_property.rs")])

prop("C11", "Looking up one node in an unparsed image finds what parsing it whole would put there",
 "Following a path through an unparsed image yields the node that parsing the whole image puts at that path (before links are resolved): the same name and value. Records in front of it, of whatever kind and content, are passed over exactly; the children of properties, canvases, raw data and convexes are reachable. A path with a component that is not there, that goes through something without children, or that is empty, is reported as not found. An image that does not start with the image header is an error.",
 ["inputs"], "every content of the records passed over and found, every kind of record",
 "tests of the repository only look up nodes in parsed trees; no test follows a path through image bytes",
 ["src/util/parse_property.rs", "src/wz_image.rs"],
 [("get_node", "src/util/parse_property.rs"), ("WzImage::at_path", "src/wz_image.rs")])
