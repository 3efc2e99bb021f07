use crate::ctx::{Ctx, Res};

mod reader;
mod section;
mod fuzz;
mod tables;
mod carousel;
mod clock;
mod es;
mod guide;
mod scan;
mod remux;

pub struct Prop {
    pub id: &'static str,
    /// runs per tier
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> Res,
    pub rule: &'static str,
    pub measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const READER: &[&str] = &["reader::TsReader", "reader::TsDrain", "reader::TsRead", "ts header functions"];
const SECTION: &[&str] = &["psi::Psi (mux, check, demux, finalize, ==, clone)", "crc32b", "ts header functions"];
const TABLES: &[&str] = &["psi::Psi", "psi::PsiDemux", "table types (parse, demux)", "all descriptor types", "textcode::StringDVB wire format", "BCD/MJD conversions", "crc32b", "reader::TsReader", "reader::TsDrain"];
const CLOCK: &[&str] = &["ts::pcr functions", "es::pes functions", "ts header functions"];

const SRC: &[&str] = &["byte source (simulated: read sizes, errors, ends)"];
const NET: &[&str] = &["packet sender and multiplexer (reference packetiser or scheduler)", "link (simulated faults, virtual time)", "byte source (simulated)"];

const A_PUBLIC: &str = "the library is driven through its public API only; overflow checks and debug assertions are compiled in";

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01", quick: 2_394_000, thorough: 23_940_000, run: reader::c01,
            rule: "Streams and read splittings are drawn; no errors are injected.",
            measure: "(bytes asked by the reader, bytes given by the source) pairs",
            real: READER, stub: SRC, assumptions: &[A_PUBLIC, "the source returns 0 only at its end"],
        },
        Prop {
            id: "C02", quick: 2_232_000, thorough: 22_320_000, run: reader::c02,
            rule: "Each run injects source errors or temporary ends.",
            measure: "(position in the packet, error kind or end) pairs at which a fault was injected",
            real: READER, stub: SRC, assumptions: &[A_PUBLIC, "buffer content is not claimed when a read fails or returns 0"],
        },
        Prop {
            id: "C03", quick: 5_940_000, thorough: 30_000_000, run: reader::c03,
            rule: "Damage regions are drawn in an otherwise regular stream.",
            measure: "(kind of damage, phase of its begin and end in the packet) tuples",
            real: READER, stub: SRC, assumptions: &[A_PUBLIC, "0x47 occurs in undamaged packets only as sync byte"],
        },
        Prop {
            id: "C04", quick: 7_200_000, thorough: 30_000_000, run: reader::c04,
            rule: "Buffer sizes, source kind, chain depth and faults are drawn.",
            measure: "(position in the packet, buffer size, result kind) tuples",
            real: READER, stub: &["packet source (simulated)", "byte source (simulated)"], assumptions: &[A_PUBLIC],
        },
        Prop {
            id: "C05", quick: 864_000, thorough: 8_640_000, run: section::c05,
            rule: "Each run is a history of emissions.",
            measure: "(table kind, sections, size of the last section modulo 184, counter at the begin) tuples",
            real: TABLES, stub: &["callers of the emitter (simulated history)"],
            assumptions: &[A_PUBLIC, "each table entry fits a section; EIT events are sorted and need at most 8 sections per segment"],
        },
        Prop {
            id: "C06", quick: 1_440_000, thorough: 14_400_000, run: section::c06,
            rule: "Runs are fault-free; packings, interleavings, copies are drawn.",
            measure: "receiver states before a packet (bytes held, relation to the section size, kind of packet, counter step)",
            real: SECTION, stub: NET, assumptions: &[A_PUBLIC, "at most one section ends per packet"],
        },
        Prop {
            id: "C07", quick: 1_800_000, thorough: 18_000_000, run: section::c07,
            rule: "About a third of the runs is fault-free.",
            measure: "receiver states before a packet (bytes held, relation to the section size, kind of packet, counter step)",
            real: SECTION, stub: NET,
            assumptions: &[A_PUBLIC, "a section that is undetectably wrong (consecutive counters and a valid CRC, confirmed by the reference receiver) is not counted"],
        },
        Prop {
            id: "C08", quick: 1_800_000, thorough: 18_000_000, run: section::c08,
            rule: "Each run has a faulty prefix followed by clean packets.",
            measure: "receiver states at the first clean packet (bytes held, relation to the section size, kind of packet, counter step)",
            real: SECTION, stub: NET, assumptions: &[A_PUBLIC, "at most one section ends per packet"],
        },
        Prop {
            id: "C09", quick: 3_600_000, thorough: 30_000_000, run: fuzz::c09,
            rule: "Every run feeds damaged, random or malformed input.",
            measure: "(table_id, length class, damage kind) of the sections parsed",
            real: &["all of the receive path: reader, ts, es, psi, descriptors, textcode"], stub: NET,
            assumptions: &[A_PUBLIC, "packets given to accessors have 188 bytes"],
        },
        Prop {
            id: "C10", quick: 990_000, thorough: 9_900_000, run: tables::c10,
            rule: "About a third of the runs is fault-free.",
            measure: "(kind, direction, sections, entries class, faults on) tuples",
            real: TABLES, stub: NET, assumptions: &[A_PUBLIC, "each entry fits a section"],
        },
        Prop {
            id: "C11", quick: 684_000, thorough: 6_840_000, run: tables::c11,
            rule: "About a third of the runs is fault-free.",
            measure: "(kind, direction, sections, entries class, faults on) tuples",
            real: TABLES, stub: NET, assumptions: &[A_PUBLIC, "each entry fits a section"],
        },
        Prop {
            id: "C12", quick: 486_000, thorough: 4_860_000, run: tables::c12,
            rule: "About a third of the runs is fault-free.",
            measure: "(kind, direction, sections, entries class, faults on) tuples",
            real: TABLES, stub: NET,
            assumptions: &[A_PUBLIC, "events are sorted by start time, each fits a section, at most 8 sections per segment"],
        },
        Prop {
            id: "C13", quick: 3_600_000, thorough: 30_000_000, run: tables::c13,
            rule: "About a third of the runs is fault-free.",
            measure: "(table, day class, offset count, faults on) tuples",
            real: TABLES, stub: NET, assumptions: &[A_PUBLIC, "payload bytes of TDT are not damaged (it has no checksum)"],
        },
        Prop {
            id: "C14", quick: 90_000, thorough: 900_000, run: carousel::c14,
            rule: "Each run is a carousel over several repetitions and versions.",
            measure: "(kind, sections in the table, sections collected when the version changed or the receiver restarted) tuples",
            real: TABLES, stub: NET, assumptions: &[A_PUBLIC, "version numbers are not reused within a run"],
        },
        Prop {
            id: "C15", quick: 1_440_000, thorough: 14_400_000, run: carousel::c15,
            rule: "Table objects are offered the receiver after every packet.",
            measure: "(table_id held, receiver completeness, object type) tuples",
            real: TABLES, stub: NET, assumptions: &[A_PUBLIC],
        },
        Prop {
            id: "C16", quick: 10_000_000, thorough: 30_000_000, run: clock::c16,
            rule: "Each run is a history of clock values.",
            measure: "(clock kind, wrapped, log2 of the difference, fault before the value) tuples",
            real: CLOCK, stub: &["encoder clocks (simulated)", "link (simulated loss, duplication)"],
            assumptions: &[A_PUBLIC, "bytes between two values are at least one packet"],
        },
        Prop {
            id: "C17", quick: 3_600_000, thorough: 30_000_000, run: clock::c17,
            rule: "Rewrite sequences on single packets and hops over faulty links.",
            measure: "(field rewritten, header flags of the packet) tuples",
            real: &["ts set_* and get_* functions", "ts::set_pcr", "psi::Psi"], stub: NET,
            assumptions: &[A_PUBLIC, "the 6 reserved bits between PCR base and extension belong to the PCR field"],
        },
        Prop {
            id: "C18", quick: 2_988_000, thorough: 29_880_000, run: tables::c18,
            rule: "About a third of the runs is fault-free.",
            measure: "(descriptor tag, body length) pairs",
            real: TABLES, stub: NET,
            assumptions: &[A_PUBLIC, "reserved character table selectors and language codes below 0x20 are not generated"],
        },
        Prop {
            id: "C19", quick: 162_000, thorough: 1_620_000, run: carousel::c19,
            rule: "Each run is a chain of relays.",
            measure: "(kind, hops, edit kind, sections) tuples",
            real: TABLES, stub: NET, assumptions: &[A_PUBLIC, "edited entries still fit a section"],
        },
        Prop {
            id: "C20", quick: 2_106_000, thorough: 21_060_000, run: section::c20,
            rule: "Snapshots of receivers are compared after every packet.",
            measure: "(completeness of both sides, equal length, equal content, rest behind the section) tuples",
            real: SECTION, stub: NET, assumptions: &[A_PUBLIC, "equality of two incomplete receivers is not specified"],
        },
        Prop {
            id: "C21", quick: 5_940_000, thorough: 30_000_000, run: es::c21,
            rule: "Multiplexes of elementary streams and arbitrary packets.",
            measure: "(header flags, adaptation field size) pairs",
            real: CLOCK, stub: NET, assumptions: &[A_PUBLIC, "PES queries are made on at least 19 bytes"],
        },
        Prop {
            id: "C22", quick: 180_000, thorough: 1_800_000, run: guide::c22,
            rule: "Each run is an editor, a carousel of event information and a viewer.",
            measure: "(code page, size limit of a part, length class) tuples",
            real: &["textcode::StringDVB (from_str, split, truncate, Display, wire format)", "psi::Eit", "short and extended event descriptors", "psi::Psi", "reader::TsReader", "reader::TsDrain"],
            stub: NET, assumptions: &[A_PUBLIC, "texts have no control characters; parts have at least 8 bytes; an event fits a section"],
        },
        Prop {
            id: "C23", quick: 180_000, thorough: 1_800_000, run: scan::c23,
            rule: "Each run is a multiplex that changes on air and a receiver that scans it.",
            measure: "(changes on air, channels, faults on, elementary streams) tuples",
            real: TABLES, stub: NET,
            assumptions: &[A_PUBLIC, "each change raises the version of the tables it touches; at most one descriptor decides the kind of a stream"],
        },
        Prop {
            id: "C24", quick: 40_000, thorough: 300_000, run: remux::c24,
            rule: "Each run takes programs of up to three faulty multiplexes into a new one.",
            measure: "(sources, stream taken over, streams of the program, kinds of event information) tuples",
            real: &["reader::TsReader", "psi::Psi", "table types (parse, demux)", "all descriptor types (clone)", "ts set_* and get_* functions", "ts::set_pcr"], stub: NET,
            assumptions: &[A_PUBLIC, "each change raises the version of the tables it touches; events are sorted"],
        },
    ]
}

pub fn find(id: &str) -> Option<Prop> { all().into_iter().find(|p| p.id == id) }
