#!/usr/bin/env python3
"""Update the "fixed" entries of known_findings.json from the log of /repo.
PROPS: property of each fix commit (by the first words of its subject)."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = """
C15 Dict item deletion
C01 length of a vector which
C01 seekable field sets which
C01 iterating on a field set
C04 infinite loop of the git pack
C13 parser selection must not
C04 chm parser
C04 Mach-O parser: giant
C04 ext2 parser: reject
C04 filename suffix
C04 OLE2 parser: endless
C04 S3M parser
C07 OutputStream.writeBit
C07 OutputStream.writeInteger
C07 OutputStream.copyBitsFrom
C07 StringOutputStream
C06 InputSubStream must
C06 InputIOStream must
C06 StringInputStream must
C06 searchBytes near
C06 InputPipe
C06 input stream of a buffered
C06 file object of an input
C06 InputIOStream.file()
C06 InputSubStream of a
C06 FragmentedStream: empty
C06 stream of a field
C16 exact conversion
C16 timestampMac32
C02 raw field added
C02 length of an array
C02 link to the first
C02 vector of a static
C01 field lost after
C02 field at an address
C04 EXIF/TIFF parser: endless
C03 display of a string
C03 ReiserFS parser
C03 lookup of a field
C03 raw display of a link
C03 Ogg parser: first page
C03 charset of a string
C05 sub-fields of a little
C05 end of an UTF-16 or UTF-32 string
C05 end of an UTF-16 or UTF-32 line
C05 Float80 without
C04 SWF: description
C04 PDF: description
C04 MP4: description
C04 Photoshop: display
C13 magic number of git pack
C04 description of some integers
C04 FIT: description
C04 LNK: hasValue
C10 regex:
C18 hachoir-grep: unreadable
C19 hachoir-grep: go on
C19 hachoir-metadata --bench
C13 parsers asked by
C13 FileInputStream() must
C13 gzip and bzip2 parsers failed
C13 file extension of Git
C13 MPEG-TS: tell
C13 magic numbers of Canon
C17 limitedTime
C17 limitedMemory
C17 close the files
C17 hachoir-subfile: close
C17 parsers of seekable
C15 replaceField()
C12 metadata filters
C12 parseDatetime
C12 exportDictionary
C11 hachoir-subfile: find files
C11 ZIP: content size
C11 Ogg: last page
C11 GIF: content size
C11 PNG, WMF: content size
C11 MIDI: content size
C11 AIFF, AU, MKV
C11 OLE2: content size
C11 JPEG: content size
C21 PSD: height
C21 TGA: size
C21 PNG: bKGD
C21 XCF: boolean
C21 GIF metadata
C20 ZIP: entries followed
C20 RPM: padding
C20 RAR: flags
C20 ACE, BOMStore
C20 7z: digests
C20 Git pack
C22 XM, S3M
C14 PCF
C14 CAB: folder data
C14 bzip2: uncompressed
C14 zlib: stored
C22 AIFF: comments
C22 FLAC: STREAMINFO
C22 ID3v1: comment
C22 Ogg: pages without
C22 Ogg: description
C22 AVI: duration
C22 ID3v2.4
C22 Matroska metadata
C22 ASF: WORD
C22 ASF metadata
C22 RealMedia: chunks
C22 MPEG-TS: clock
C22 MP4: signed
C01 sizes computed with a true
C22 XM: names
C11 hachoir-subfile: don't overwrite
C11 hachoir-subfile: extract
C11 Word document, Mach-O
C14 FAT: cluster chains
C14 MPEG audio: recognize a file
C19 hachoir-list: process the other
C19 tools: names and values which
C19 hachoir-strip, hachoir-subfile: report files
C19 --profiler: hotshot
C19 hachoir.metadata.csv: unreadable
C19 log file: messages
C08 editor: values of typed
C08 editor: inserted fields
C09 RIFF: empty chunk at the end
C09 hachoir-strip: TAR archives
C23 bplist: XML
C23 tcpdump: microseconds
C23 ELF: the program headers
C23 Java class: description
C23 compiled Python: Unicode
C23 Linux swap: number
C23 EXE: version
C23 ISO 9660: numbers
C23 ASN.1: sets
C23 TrueType: flags
C23 LNK: structures
C21 GIF: codes
C23 OLE2: sectors
C23 ext2: padding
C24 urwid: mark of the field set
C24 urwid: the name
C14 descriptions and names
C25 EXE, NDS, Matroska
C25 TIFF, CR2: the
C25 parsers which need
C04 bplist: offsets
C04 Mach-O: sections
"""
REVERTED = ("fix: doc: the value of EditableBytes is bytes",)


def main():
    path = os.path.join(HERE, "known_findings.json")
    data = json.load(open(path))
    props = [line.split(" ", 1) for line in PROPS.strip().splitlines()]
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], check=True,
                         stdout=subprocess.PIPE, text=True).stdout
    keep = [e for e in data["findings"] if e["status"] != "fixed"]
    missing = []
    for line in log.splitlines():
        commit, subject = line.split(" ", 1)
        if not subject.startswith("fix: ") or subject in REVERTED:
            continue
        subject = subject[5:]
        found = [pid for pid, text in props if subject.startswith(text)]
        if not found:
            missing.append(line)
            continue
        keep.append({"property": found[0], "key": "fix:" + commit, "status": "fixed",
                     "what": "fixed: property=%s %s %s" % (found[0], commit, subject)})
    json.dump({"findings": keep}, open(path, "w"), indent=1)
    open(path, "a").write("\n")
    print("%d entries" % len(keep))
    for line in missing:
        print("NO PROPERTY:", line)
    return bool(missing)


if __name__ == "__main__":
    sys.exit(main())
