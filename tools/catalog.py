#!/usr/bin/env python3
"""The properties, in one place; writes properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN  # noqa: E402

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


prop("P01", "A document survives being written and read again",
     "Every Compose document the library accepts, when written back out as YAML (as a tree or as text) and read again, gives an equal value, "
     "whatever sections, fields, short or long forms and scalar spellings it uses; an empty mapping where a list would do counts as equal to an empty list. "
     "Writing that value a second time gives the same document as the first time.",
     ["inputs"], "every acceptable document: any combination of sections, fields, forms and scalar values",
     "The round-trip tests exercise one large hand-written document and a handful of single values; the guarantee is over "
     "every combination of forms and every value a field can take.",
     ["src/lib.rs", "src/serde.rs", "src/common.rs", "src/common/short_or_long.rs", "src/service.rs"],
     [("derived and hand-written serializers and deserializers of every type", "src/**/*.rs"),
      ("skip_serializing_if predicates", "src/service.rs")],
     ["serde_yaml::from_value::<Compose>", "serde_yaml::to_value(&Compose)", "serde_yaml::to_string(&Compose)"])

prop("P02", "Reading and writing loses, adds and moves no setting",
     "Writing out an accepted document reproduces exactly the settings it contained: every field, list item, map entry and "
     "extension (x- key) is present under the same key with the same meaning, in the same order within lists and "
     "user-keyed maps, and nothing is added. The only differences are canonical spelling of scalars, omission of settings equal to their "
     "default (explicit nulls, empty collections, false), and duplicates in lists that are sets.",
     ["inputs"], "every acceptable document",
     "Unit tests compare a value with itself after a round trip, so a setting dropped or misplaced already on reading goes unseen; "
     "only an independent account of what each document should turn into can tell.",
     ["src/lib.rs", "src/serde.rs", "src/common.rs", "src/service.rs", "src/service/deploy.rs", "src/service/deploy/resources.rs",
      "src/service/build.rs", "src/network.rs", "src/volume.rs", "src/config.rs", "src/secret.rs", "src/include.rs"],
     [("field names and defaults of every struct", "src/**/*.rs"), ("flattened Extensions", "src/common.rs"),
      ("ItemOrList / ListOrMap / ShortOrLong visitors", "src/common.rs, src/common/short_or_long.rs")],
     ["serde_yaml::to_value(&serde_yaml::from_value::<Compose>(doc))"])

prop("P03", "Exactly the well-formed documents are read",
     "A document is accepted exactly when, in every section, the required fields are present, every field holds a value of a kind and range it takes (a scalar of the right type, "
     "a text of the field's language, a keyword of its set, a list or mapping of such), and the other keys are x- extensions where the section supports them; sections without "
     "extensions skip unknown keys. Anything else is rejected, never silently ignored or reinterpreted. (An explicit null where a list, mapping or section is required is left open.)",
     ["inputs"], "every document: each section with every field, good and bad values of every kind, and their combinations",
     "Acceptance and rejection are tested for a few spots; the guarantee ranges over every field of every section and every kind of wrong value.",
     ["src/lib.rs", "src/common.rs", "src/serde.rs", "src/service.rs", "src/service/deploy.rs", "src/service/healthcheck.rs"],
     [("ExtensionKey validation of flattened keys", "src/common.rs"), ("typed visitors", "src/serde.rs"),
      ("closed keyword enums", "src/service.rs")],
     ["serde_yaml::from_value::<Compose>"])

prop("P04", "Mutually exclusive settings never coexist",
     "Settings which exclude each other are never both accepted: a service's network mode and networks; a build's Dockerfile path and inline Dockerfile; "
     "the file, environment, inline content and external variants of a config or secret; the file, registry and "
     "config variants of a credential spec; settings besides the name of an external network, volume, config or secret; "
     "and a disabled healthcheck and any other healthcheck setting. Each alternative alone is accepted and comes back out as the same alternative.",
     ["inputs"], "every combination of the alternatives, with and without extensions, in any key order",
     "Tests try one or two conflicting pairs; the guarantee covers all combinations in all orders.",
     ["src/service/network_config.rs", "src/service/build/dockerfile.rs", "src/config.rs", "src/secret.rs",
      "src/service/credential_spec.rs", "src/common.rs", "src/service/healthcheck.rs"],
     [("NetworkConfig flattening", "src/service/network_config.rs"), ("Dockerfile visitor", "src/service/build/dockerfile.rs"),
      ("Resource visitor", "src/common.rs"), ("Source enums", "src/config.rs, src/secret.rs")],
     ["serde_yaml::from_value::<Compose>"])

prop("P05", "The order of keys never changes what a document means",
     "Whether a document is accepted, and which value it denotes, does not depend on the order in which the keys of its mappings are written.",
     ["inputs"], "every permutation of the keys of every mapping that is read by hand-written code",
     "Hand-written visitors see keys one at a time in document order; tests use one order each.",
     ["src/service/healthcheck.rs", "src/service/build/dockerfile.rs", "src/service/network_config.rs", "src/service/deploy/resources.rs",
      "src/service/volumes/mount.rs", "src/common.rs", "src/service/blkio_config.rs", "src/service/credential_spec.rs"],
     [("healthcheck visitor", "src/service/healthcheck.rs"), ("flattened enums", "src/service/network_config.rs"),
      ("generic resource and device visitors", "src/service/deploy/resources.rs")],
     ["serde_yaml::from_value with permuted keys"])

prop("P06", "Names and keys: exactly the documented texts are valid",
     "A project name, an identifier of a service or resource, a map key, an extension key, a hostname, a ulimit name, a user or group name and a "
     "build cache option key are valid exactly when they satisfy that kind's documented rule, no matter through which constructor or "
     "conversion they are made. A valid one keeps its text exactly and compares, orders and hashes like that text.",
     ["inputs"], "every string, every constructor and conversion",
     "Tests sample a few good and bad names; the rule is over all strings, including non-ASCII and edge positions.",
     ["src/name.rs", "src/common/keys.rs", "src/service/hostname.rs", "src/service/ulimit.rs", "src/service/user.rs", "src/service/build/cache.rs"],
     [("InvalidNameError checks", "src/name.rs"), ("key_impls! macro", "src/common/keys.rs"), ("Hostname::new", "src/service/hostname.rs")],
     ["new / TryFrom / FromStr / deserialization of each type"])

prop("P07", "Image references decompose uniquely and faithfully",
     "A text is accepted as an image reference exactly when it is a name, optionally followed by a tag or a digest, and the name, registry, tag and "
     "digest reported are exactly those parts of the text. Every way of constructing the reference agrees, and it prints as the text it was read from.",
     ["inputs"], "every string",
     "Property tests generate valid references only from the implementation's own view; invalid and boundary texts are sampled sparsely.",
     ["src/service/image.rs", "src/service/image/name.rs", "src/service/image/tag.rs", "src/service/image/digest.rs"],
     [("Image::parse offsets", "src/service/image.rs"), ("Name::new", "src/service/image/name.rs")],
     ["Image::parse", "Image::{name,registry,tag,digest}", "Name/Tag/Digest::new"],
     [("registry_end, tag_start/digest_start", "byte offsets into one string", "src/service/image.rs")])

prop("P08", "Editing an image reference changes only the edited part",
     "After any sequence of edits to the registry, name, tag and digest of an image reference, and of taking it apart and reassembling it, the reference "
     "is well formed, has exactly the parts last given to it (a tag and a digest displace each other), and is what reading its text would give.",
     ["histories"], "every finite sequence of edits from every valid reference",
     "Tests apply single edits; stale offsets only show after particular sequences.",
     ["src/service/image.rs", "src/service/image/name.rs"],
     [("set_registry, set_name, set_tag, set_digest, set_tag_or_digest", "src/service/image.rs"),
      ("from_parts / as_parts", "src/service/image.rs")],
     ["all accessors after each edit"],
     [("registry_end, tag_start/digest_start", "byte offsets into one string, shifted by edits", "src/service/image.rs")])

prop("P09", "Port ranges never run backwards, however they are made",
     "No way of making a port range yields one that ends before, or at, its start: such ends are rejected (an end equal to the start "
     "means a single port). The size, iteration and text of a range agree with its start and end for all 65536 ports.",
     ["inputs"], "all pairs of 16-bit numbers; every string",
     "Tests use a handful of ranges.",
     ["src/service/ports.rs"],
     [("Range::new / FromStr / TryFrom", "src/service/ports.rs"), ("Range::size", "src/service/ports.rs")],
     ["Range accessors, Display, IntoIterator"])

prop("P10", "Published and exposed port texts denote exactly one mapping",
     "A text is accepted as a short published port exactly when it has the documented form of optional host address and host ports, container ports "
     "and optional protocol, with host and container ranges of equal length; the parts reported are those of the text, with IPv6 addresses "
     "understood with or without brackets. Printing gives a text or number that denotes the same mapping, and likewise for exposed ports.",
     ["inputs"], "every string and integer",
     "Tests sample a dozen well-formed texts.",
     ["src/service/ports.rs", "src/service/expose.rs"],
     [("ShortPort FromStr/Display/Serialize", "src/service/ports.rs"), ("Expose", "src/service/expose.rs")],
     ["ShortPort, ShortRanges, Expose parse/print/serialize"])

prop("P11", "Converting ports between short and long form keeps their meaning",
     "Expanding a short port gives one long entry per container port, pairing host and container ports one to one in order with the "
     "address and protocol kept; a long port can be shortened exactly when the short form can express all its settings, and "
     "expanding it again gives it back. Replacing the host or container ranges of a short port never leaves them with different lengths.",
     ["inputs", "histories"], "every short and long port; every sequence of replacements",
     "Tests convert a few examples each way.",
     ["src/service/ports.rs"],
     [("ShortPort::into_long_iter, Port::into_short", "src/service/ports.rs"), ("ShortRanges::replace_*", "src/service/ports.rs")],
     ["into_short, into_long, ShortRanges edits"])

prop("P12", "Short volume texts denote exactly one mount",
     "A text is accepted as a short volume exactly when it is a container path, or a source, a container path and optionally a list of non-conflicting "
     "options; a source that is a path is a host path and anything else a volume name. The parts reported are those of the text, and the printed text denotes the same mount.",
     ["inputs"], "every string",
     "Tests sample a few texts.",
     ["src/service/volumes.rs"],
     [("ShortVolume FromStr/Display", "src/service/volumes.rs"), ("Source, HostPath, AbsolutePath", "src/service/volumes.rs")],
     ["ShortVolume parse/print/serialize"])

prop("P13", "Converting volumes between short and long form keeps their meaning",
     "Expanding a short volume gives the bind mount or named or anonymous volume it denotes, with its options (SELinux relabelling concerns bind mounts only); "
     "a long mount can be shortened exactly when the short form can express all its settings, and expanding the result gives the same mount back, "
     "the options a short text implies spelled out.",
     ["inputs"], "every short volume and every combination of settings of every mount type",
     "Tests convert a few mounts; the guarantee is over all combinations of settings.",
     ["src/service/volumes.rs", "src/service/volumes/mount.rs"],
     [("ShortVolume::into_long", "src/service/volumes.rs"), ("Mount/Bind/Volume::into_short", "src/service/volumes/mount.rs")],
     ["into_short, into_long"])

prop("P14", "Validation accepts exactly the documents whose references resolve",
     "Validating networks, configs and secrets succeeds exactly when every one listed by a service, in short or long form, is defined at top level, and otherwise "
     "names the first service with an undefined one and the first such it lists. Validating everything succeeds exactly when each of the separate "
     "validations (networks, volumes, configs, secrets, in that order) does, and reports the first failing one. Validation changes nothing.",
     ["inputs"], "every assignment of references to services and of definitions to the top level",
     "Tests cover none or single references.",
     ["src/lib.rs", "src/service.rs", "src/service/network_config.rs"],
     [("Compose::validate_*", "src/lib.rs"), ("Service::validate_*", "src/service.rs")],
     ["Compose::validate_networks/configs/secrets/all", "ValidationError text"])

prop("P15", "A named volume shared by services must be defined",
     "Volume validation fails exactly when some named volume, mounted in short or long form by at least two different services, is not defined at top level, and names such a volume. "
     "Bind mounts, anonymous volumes and volumes used by one service alone never cause a failure.",
     ["inputs"], "every set of mounts per service and every set of definitions",
     "The doc test shows one failing example.",
     ["src/lib.rs", "src/service/volumes.rs"],
     [("Compose::validate_volumes", "src/lib.rs"), ("named_volumes_iter", "src/service/volumes.rs")],
     ["Compose::validate_volumes"])

prop("P16", "List and map spellings of the same settings are equivalent",
     "Where a field takes either a mapping or a list of key=value texts, each list item denotes the entry obtained by splitting at the first separator, "
     "an item without one denotes a key without a value (an item repeated counts once, and a later item for a key replaces an earlier one in its place), "
     "and converting between the forms keeps every key, value and the order. "
     "The same holds for extra hosts, whose items use = or : and optionally bracketed addresses.",
     ["inputs"], "every list of texts and every map",
     "Tests use one small example per form.",
     ["src/common.rs", "src/serde.rs", "src/service.rs"],
     [("ListOrMap", "src/common.rs"), ("extra_hosts deserializer", "src/service.rs")],
     ["ListOrMap::{into_list,into_map}", "Service.extra_hosts"])

prop("P17", "Durations are read and written exactly",
     "A duration text is a sequence of whole numbers with units and denotes their exact sum, or is rejected when malformed or too large; "
     "writing any duration gives a text that reads back as the same duration to the nanosecond it can express.",
     ["inputs"], "every string; every duration",
     "Tests try a few texts; overflow and unit boundaries are out of reach of samples.",
     ["src/duration.rs", "src/serde/duration_option.rs", "src/serde/duration_us_option.rs"],
     [("duration::parse, to_string", "src/duration.rs")],
     ["duration::parse / to_string", "healthcheck and stop_grace_period fields"])

prop("P18", "Byte sizes and limits are exact",
     "A byte size text is a whole number with a unit and denotes exactly that many bytes (b, kb, mb and gb count in powers of 1000) or is rejected when malformed or too large for its unit's storage; writing gives a "
     "text or number denoting the same size and unit. A limit is such a value or the unlimited marker -1, in every spelling, and never another negative number.",
     ["inputs"], "every string and integer",
     "Tests cover each unit once.",
     ["src/service/byte_value.rs", "src/service/limit.rs"],
     [("ByteValue::parse/into_bytes/Display", "src/service/byte_value.rs"), ("Limit", "src/service/limit.rs")],
     ["ByteValue, Limit<u32|u64|ByteValue>"])

prop("P19", "CPU sets denote sets of CPUs",
     "A CPU set text is a comma-separated list of CPU numbers and ascending ranges and denotes exactly the CPUs listed; malformed texts and reversed ranges are rejected. "
     "Printing gives the unique shortest ascending list of ranges, which reads back as the same set.",
     ["inputs"], "every string; every finite set",
     "Tests cover a few sets.",
     ["src/service/cpuset.rs"],
     [("CpuSet FromStr/Display", "src/service/cpuset.rs")],
     ["CpuSet parse/print"])

prop("P20", "Users and ids are unambiguous",
     "A user setting is a user, optionally followed by a colon and a group, each an id when it is a number that fits in 32 bits and otherwise a valid name; it prints as a text that reads back the same.",
     ["inputs"], "every string and integer",
     "Tests cover a few values.",
     ["src/service/user.rs"],
     [("User/IdOrName", "src/service/user.rs")],
     ["User, IdOrName"])

prop("P21", "Device texts and cgroup rules grant exactly what they say",
     "A device mapping text denotes its host path, container path and exactly the permissions listed (none when omitted); a device cgroup rule denotes exactly the device kind, "
     "numbers or wildcards and permissions listed. Other texts are rejected and printing gives a text denoting the same grant.",
     ["inputs"], "every string",
     "Tests sample a few texts.",
     ["src/service/device.rs"],
     [("Device, CgroupRule, Permissions", "src/service/device.rs")],
     ["Device, CgroupRule parse/print"])

prop("P22", "Compact reference texts decompose and print faithfully",
     "Network modes, IPC modes, links, inherited volumes, MAC addresses, SSH authentications, build caches, build contexts and build networks given "
     "as one text are accepted exactly when well formed and report exactly the parts of the text. Printing gives a text which denotes the same value.",
     ["inputs"], "every string",
     "Tests sample a few texts of some of these types.",
     ["src/service/network_config.rs", "src/service/build/cache.rs", "src/service/build/ssh_auth.rs", "src/service/build/context.rs",
      "src/service/build/network.rs", "src/service.rs", "src/service/deploy/endpoint_mode.rs", "src/network.rs"],
     [("FromStr/Display of each type", "src/service/**")],
     ["parse / print / serialize of each type"])

prop("P23", "Platform texts: every supported combination and no other",
     "A platform text is an operating system, optionally an architecture and optionally a variant of it; exactly the supported combinations are accepted, the parts are reported as "
     "given, and it prints as a text which reads back the same.",
     ["inputs"], "the full product of systems, architectures and variants, and every other string",
     "Tests sample a few platforms.",
     ["src/service/platform.rs"],
     [("Platform FromStr/Display", "src/service/platform.rs")],
     ["Platform parse/print/accessors"])

prop("P24", "Absolute and host paths stay what they are",
     "A value of an absolute path type always is an absolute path, and one of a host path type always is absolute or starts with . or .., however it was made and whatever was "
     "pushed onto or popped from it. An edit which would break this is refused and changes nothing.",
     ["histories"], "every sequence of edits from every path",
     "Tests do a few single edits.",
     ["src/service/volumes.rs"],
     [("AbsolutePath / HostPath push, pop", "src/service/volumes.rs")],
     ["AbsolutePath, HostPath"])

prop("P25", "A section reports itself empty exactly when it has no settings",
     "Every section that can say whether it is empty says so exactly when none of its settings is given (nested sections without settings count as not given), so that leaving out empty "
     "sections on writing never loses a setting.",
     ["inputs"], "every section and every subset of its settings",
     "Tests check few sections; one forgotten field in one predicate loses a setting silently.",
     ["src/service.rs", "src/service/deploy.rs", "src/service/deploy/resources.rs", "src/service/build.rs", "src/network.rs", "src/volume.rs",
      "src/service/blkio_config.rs", "src/service/volumes/mount.rs", "src/service/network_config.rs", "src/service/healthcheck.rs"],
     [("is_empty methods", "src/**/*.rs"), ("skip_serializing_if", "src/service.rs")],
     ["is_empty of every section"])

prop("P26", "Keywords print as the words that are read",
     "For every field with a closed or open set of keywords, each keyword is read as its own variant (including documented aliases), written as exactly that keyword, and printed as "
     "the same text; in open sets any other text is kept verbatim.",
     ["inputs"], "all keywords of all keyword fields, and near misses",
     "Tests check some enums.",
     ["src/service.rs", "src/service/deploy.rs", "src/service/deploy/endpoint_mode.rs", "src/service/deploy/resources.rs", "src/network.rs",
      "src/service/develop.rs", "src/service/ports.rs", "src/service/volumes/mount.rs"],
     [("compose_spec_macros derive and FromStr/AsRef impls", "src/**/*.rs")],
     ["FromStr / Display / Serialize / Deserialize of each keyword type"])

prop("P27", "Scalars keep their type and value",
     "A null, boolean, number or text in a place that takes any scalar is read as that type with exactly that value and written back the same; "
     "turning text into a scalar and back is the documented conversion, and conversions out of a scalar succeed exactly for the type it has and the values that fit.",
     ["inputs"], "every scalar, including 64-bit and floating point boundaries",
     "Tests sample a few scalars.",
     ["src/common.rs"],
     [("Value, Number, StringOrNumber", "src/common.rs")],
     ["Value / Number / StringOrNumber parse, print, TryFrom, (de)serialize"])

prop("P28", "Merge keys are applied exactly when asked, by every entry point",
     "With merging enabled, every << key is replaced by the entries it refers to, explicit keys and earlier merge sources winning, in every mapping of the document; "
     "with it disabled nothing is merged. Reading from text, bytes or a stream gives the same result, and so does reading a parsed tree (which, unmerged, may only be refused where text is let through: a plain scalar in text has no type yet).",
     ["inputs", "configurations"], "every document with nested merges, both option settings, every entry point",
     "The tests use one document.",
     ["src/options.rs"],
     [("Options::{from_yaml_str, from_yaml_reader, ...}", "src/options.rs")],
     ["Options entry points"])

prop("P29", "No input makes the library panic or hang",
     "Reading any text or document, and printing, converting, validating and comparing anything that was read, ends with a value or an error, never with a panic, overflow or "
     "endless computation.",
     ["inputs"], "every string in every text field, every document tree",
     "Tests feed mostly well-formed input.",
     ["src/**/*.rs"],
     [("checked arithmetic and slicing in hand-written parsers", "src/duration.rs, src/service/**")],
     ["all reading and printing entry points"])

prop("P30", "Fields that take a short or a long form treat both alike",
     "For every field with a short and a long form, the short form denotes the long form with that one setting and all others at their defaults; a long form can be shortened exactly when "
     "it has no other setting; and each is written back in the form in which it is held.",
     ["inputs"], "every field with two forms and every subset of the long form's settings",
     "Tests check few types; a forgotten setting in one conversion silently drops it.",
     ["src/common/short_or_long.rs", "src/common.rs", "compose_spec_macros/src/as_short.rs"],
     [("AsShort derive", "compose_spec_macros/src"), ("ShortOrLong", "src/common/short_or_long.rs")],
     ["ShortOrLong::{into_short, into_long, ...} of every type"])


prop("P31", "Two documents are equal exactly when they say the same",
     "Two values that were read compare equal exactly when they say the same: a difference in any one setting or extension, or in the order of a list, makes them unequal, and the order of settings "
     "in a mapping never does; what is kept as a set holds each of two different elements, and of two equal ones only one.",
     ["inputs"], "every pair of documents that differ in one place, in every section and setting",
     "The tests compare few pairs; a field forgotten in a comparison written by hand makes differing values equal, so that sets and deduplication lose settings.",
     ["src/service/ports.rs", "src/service/volumes/mount.rs", "src/common.rs", "src/lib.rs"],
     [("PartialEq and Hash of Port, Common, VolumeOptions, BindOptions, TmpfsOptions", "src/service/ports.rs, src/service/volumes/mount.rs"), ("derived PartialEq of all sections", "src")],
     ["PartialEq, Hash and set membership of everything that is read"])


prop("P32", "A value made in code is the one its text would have given",
     "Every conversion and constructor takes exactly the numbers, texts and parts which would be accepted if they were written in a document, and makes the very value that would then have been read: "
     "percentages, scores and weights within their bounds, processor counts not negative, ranges not backwards and of equal length, and everything not given left at its default. "
     "It compares with, converts back into and is written as what it was made from.",
     ["inputs"], "every conversion and constructor of a scalar or section and every argument, with all bounds",
     "The tests read most values from text; a bound missing in one of several constructors, or a setting a conversion fills in wrongly, goes unseen.",
     ["src/service.rs", "src/service/blkio_config.rs", "src/service/deploy/resources.rs", "src/service/ports.rs", "src/service/user.rs", "src/service/volumes.rs", "src/service/volumes/mount.rs",
      "src/service/env_file.rs", "src/common.rs", "src/config.rs", "src/secret.rs"],
     [("From, TryFrom and new of the scalar types and sections", "src/**"), ("Percent, OomScoreAdj, Weight, Cpus: bounds", "src/service.rs, src/service/blkio_config.rs, src/service/deploy/resources.rs")],
     ["the constructors, conversions and comparisons themselves, and serialization of what they make"])


prop("P33", "A document in JSON says the same",
     "JSON is YAML: a document that is accepted in YAML is accepted in JSON, be it read by a JSON reader from text, bytes, a stream or a tree in memory, or read as YAML, and gives the same value; "
     "and a value written as JSON says what it says when it is written as YAML, with the same keys in the same order.",
     ["inputs"], "every document that can be said in JSON, in every section and setting",
     "The tests read and write YAML only; a visitor that takes what one reader hands out (borrowed text, signed integers, owned keys) and not what another does, or a writer that relies on a YAML form, goes unseen.",
     ["src/serde.rs", "src/common.rs", "src/lib.rs", "src/service.rs", "src/service/**"],
     [("Visitors and FromStrOr / SingleVisitor helpers", "src/serde.rs"), ("Deserialize and Serialize of every type", "src/**")],
     ["Deserialize and Serialize of every section, through serde_json and serde_yaml"])


prop("P34", "Names, references, paths and numbers are ordered and found by what they say",
     "Of any two keys, names, image references and their parts, addresses, paths, weights, scores, percentages or limits, one is less, equal or greater exactly as their texts, bytes, path components or "
     "numbers are (unlimited being more than any number): it is a total order, equal values have equal hashes and are one in a set, and whatever is kept in a map is found by the text or path it says, "
     "and by no other.",
     ["inputs"], "every pair of values of every type with an order, a hash or a borrowed text",
     "The tests compare no two names in order and look nothing up by text; an order or hash that disagrees with equality corrupts every map and set.",
     ["src/common/keys.rs", "src/service/image.rs", "src/service/image/name.rs", "src/service/image/tag.rs", "src/service/image/digest.rs", "src/service/volumes.rs", "src/service/limit.rs",
      "src/service/blkio_config.rs", "src/service.rs", "src/service/network_config.rs"],
     [("PartialEq, Ord, Hash, Borrow of Image, Name, Tag, Digest", "src/service/image.rs, src/service/image/*.rs"), ("key_impls!", "src/common/keys.rs"), ("path_impls!", "src/service/volumes.rs")],
     ["Ord, Eq, Hash, Borrow and comparisons with text of every ordered type; BTreeMap, HashMap and IndexMap keyed by them"])


prop("P35", "A setting given twice is refused",
     "A document in which a setting of the specification is given twice in one section, side by side or apart, with equal or different values, is refused by every reader: "
     "neither of the two is silently dropped. (Keys which the user chooses, such as the names of services, labels and extensions, are not settings of the specification.)",
     ["inputs"], "every setting of every section, given twice, with every pair of its values",
     "No test gives a setting twice; a section read by hand or through a map keeps one of the two and loses the other.",
     ["src/service/healthcheck.rs", "src/service/credential_spec.rs", "src/common.rs", "src/**"],
     [("check_duplicate, set_kind", "src/service/healthcheck.rs, src/service/credential_spec.rs"), ("Resource::deserialize", "src/common.rs"), ("derived Deserialize of all sections", "src")],
     ["Deserialize of every section from YAML and JSON text"])


TECHNIQUE = "TLA+ specification checked with TLC; emitted behaviours replayed into the crate; recorded runs validated against the specification"
NOTE = ("Exhaustive within the bounds given in DESIGN.md (token alphabets and depths, section and field combinations), randomised beyond them; "
        "the specification's own invariants are checked on every state. Trusts TLC, the JSON bridge and the harness's projection of values, "
        "and that behaviour beyond the bounds is like behaviour within them.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 tools/check.py --build",
        "checks": [
            {"property": p["id"],
             "quick_cmd": f"python3 tools/check.py {p['id']} quick",
             "thorough_cmd": f"python3 tools/check.py {p['id']} thorough",
             "technique": TECHNIQUE, "level": "model_checking",
             "level_note": PLAN[p["id"]].get("note", "") + (" " if "note" in PLAN[p["id"]] else "") + NOTE}
            for p in P if p["id"] in PLAN],
        "not_applicable": [
            {"property": p["id"], "reason": "no check built yet (planned; see DESIGN.md)"}
            for p in P if p["id"] not in PLAN],
        "notes": "No hooks: the public API exposes all the state the specification talks about. /repo carries unguarded fix: commits only, "
                 "see known_findings.txt.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
