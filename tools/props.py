#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
C = {}


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, note=None, na=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})
    assert len(title) <= 80, title
    C[id] = (tech, note, na)


ENT = "src/entities/"
prop("C01", "Saving a model writes exactly the model that was built, and it reads back",
     "For any valid model assembled through the public interface, saving succeeds and an independent reader of IGES 5.3 fixed-format "
     "files recovers from the file exactly the same entities: types, forms, attributes, labels, colors, optional trailing pointers, references and every parameter value, "
     "reals being equal within the declared resolution. "
     "Loading that file into an empty model and saving it again describes the same model once more.",
     ["inputs", "programs"], "all models of the supported entity types, link structures, attribute values, orders of creation, delimiters and resolutions",
     "The tests write a few fixed shapes and only look at whether saving returned true or at a checksum of one sample; the space of entity types x attributes x links x values is unbounded.",
     ["src/iges/iges.cpp", "src/iges/iges_io.cpp", "src/entities/iges_entity.cpp", "src/entities/entity100.cpp", "src/entities/entity126.cpp", "src/entities/entity144.cpp"],
     [("save and load of a whole model", "src/iges/iges.cpp: IGES::Write, IGES::Read"), ("formatting and parsing of parameters and directory entries", "src/iges/iges_io.cpp, src/entities/*.cpp: format, readPD, readDE, associate")],
     observe=["the bytes of the saved file", "the saved file after load and save"],
     tech="model-based random generation of API-built models, independent strict IGES parser as oracle, write and write-read-write round trip",
     note="Random exploration: tens of thousands of generated models per run under ASAN and UBSAN; trusts the reference parser and model in harness/refiges.cpp and harness/model.cpp.")

prop("C02", "Any conforming file is read with its exact meaning, whoever wrote it",
     "Loading any conforming IGES 5.3 fixed-format file made of supported entities succeeds, whatever legal layout its author chose (delimiters, line breaks, omitted and defaulted values, "
     "number formats, order of entities), and saving it preserves the meaning of every entity, attribute, reference and value. "
     "Entities of unsupported types are left out without disturbing the others, and saving what was loaded from a saved file changes nothing any more.",
     ["inputs"], "all conforming files over the supported entity types, in all legal layouts, including B-rep solids, with unsupported entities mixed in",
     "The tests read a handful of sample files, all written by one of two programs, and compare no contents.",
     ["src/iges/iges.cpp", "src/iges/iges_io.cpp", "src/entities/iges_entity.cpp", "src/entities/entity186.cpp", "src/entities/entity504.cpp", "src/entities/entity508.cpp"],
     [("parameter tokenizer", "src/iges/iges_io.cpp: ParseInt, ParseReal, ParseHString"), ("entity parsing", "src/entities/*.cpp: readDE, readPD, associate")],
     observe=["the saved file after a load"],
     tech="generated conforming files from an independent writer, load-save differential against the generating model, idempotence of a second load-save",
     note="Random exploration under ASAN and UBSAN; trusts harness/refiges.cpp as the reading of IGES 5.3.")

prop("C03", "File-wide metadata survives saving and loading unchanged",
     "Every piece of file-wide information which a user sets (start section text, parameter and record delimiters, names, author, organisation, units, scale, resolution, line weights, dates, protocol and notes), "
     "with any printable text including the delimiters themselves, reaches the saved file in its proper place of the global section. "
     "Loading restores it to the same values, applying the defaults of the standard to omitted values and rejecting only values which the standard forbids.",
     ["inputs", "configurations"], "all header texts, strings, delimiter pairs, units, scales and layouts of the start and global sections",
     "The tests never look at the global section, and its strings, delimiters and defaults combine without bound.",
     ["src/iges/iges.cpp", "src/iges/iges_io.cpp"],
     [("global section", "src/iges/iges.cpp: writeGlobals, readGlobals"), ("start section", "src/iges/iges.cpp: AddHeaderLine, writeHeaders, readHeaders")],
     observe=["global data of the loaded model", "start and global section of the saved file"],
     tech="generated metadata, round trip through the library and through an independent parser and writer",
     note="Random exploration; values the library documents as its own (library version, number formats, modification time) are checked for validity, not for equality.")

prop("C04", "Malformed or hostile IGES input is rejected cleanly",
     "Loading any byte sequence as an IGES file either succeeds or reports failure; it never crashes, hangs, reads or writes outside its memory, exhausts memory out of proportion to the file, or loses memory. "
     "After a failed load the model can be used to load a good file or to build a new one, and a model which was loaded from a damaged file can be saved, exported and destroyed safely.",
     ["inputs", "fault_sequences"], "all byte sequences, in particular damaged or truncated versions of valid files and files with inconsistent counts, types and pointers",
     "No test reads a damaged file; the number of ways in which counts, pointers and fields can be inconsistent is unbounded.",
     ["src/iges/iges.cpp", "src/iges/iges_io.cpp", "src/entities/iges_entity.cpp", "src/entities/entity126.cpp", "src/entities/entity128.cpp", "src/entities/entity504.cpp", "src/entities/entity508.cpp"],
     [("entity parsing and association", "src/entities/*.cpp: readDE, readPD, associate, unlink")],
     observe=["return value of the load", "sanitizer reports", "a later load, save and export by the same object"],
     tech="structure-aware mutation fuzzing and coverage-guided fuzzing of the choice sequences under ASAN and UBSAN with use-after-failure sequences",
     note="Fuzzing: absence of reports on the explored inputs only.")

prop("C05", "References between entities stay consistent under every history of edits",
     "Whatever sequence of creating, linking, unlinking, deleting, culling, exporting and saving a program performs, no entity is left referring to one that no longer exists, each reference is known to both sides, "
     "and every query reports exactly the links which the accepted edits imply. "
     "A rejected edit (wrong type, duplicate or foreign entity) links nothing and disturbs at most the link it was to replace, and culling removes exactly the entities which nothing that remains needs.",
     ["histories"], "all finite sequences of edits over models of all linkable entity types",
     "The tests only build; they hardly ever delete, unlink or cull, and only a history search reaches stale references.",
     ["src/iges/iges.cpp", "src/entities/iges_entity.cpp", "src/entities/entity102.cpp", "src/entities/entity142.cpp", "src/entities/entity144.cpp", "src/entities/entity180.cpp", "src/entities/entity308.cpp", "src/entities/entity408.cpp"],
     [("reference bookkeeping", "src/entities/iges_entity.cpp: addReference, delReference"), ("removal", "src/iges/iges.cpp: DelEntity, Cull; src/entities/*.cpp: unlink")],
     state=[("refs", "the parents of an entity", "src/include/core/iges_entity.h")],
     observe=["query results after every step", "the saved file"],
     tech="stateful model-based testing: random edit histories against a reference graph, under ASAN",
     note="Random histories of bounded length; trusts the reference graph model in the harness.")

prop("C06", "Changing units or model scale never changes the physical geometry",
     "Converting a model between units or to another model scale, and loading a file in any unit and scale, leaves every length, position, radius, translation and boundary the same physical quantity, and leaves "
     "dimensionless values (angles, directions, rotations, knots, weights, scale factors, conic coefficients up to a common factor) meaning the same. "
     "Converting there and back restores the model within the resolution.",
     ["inputs", "configurations"], "all models, all pairs of units and all positive scales",
     "The tests use millimetres and inches on a few boards without comparing coordinates.",
     ["src/iges/iges.cpp", ENT + "entity100.cpp", ENT + "entity104.cpp", ENT + "entity126.cpp", ENT + "entity128.cpp", ENT + "entity308.cpp", ENT + "entity408.cpp"],
     [("conversion of a whole model", "src/iges/iges.cpp: ConvertUnits, ChangeModelScale"), ("conversion of entities", "src/entities/*.cpp: rescale")],
     observe=["the saved file, its units and scale"],
     tech="metamorphic testing: generated models converted between units and scales, physical geometry compared through an independent parser",
     note="Random exploration; tolerance is the declared resolution carried through the conversion.")

prop("C07", "Merging models keeps the contents and structure of both",
     "Exporting a model into another packages its assemblies (else trimmed surfaces, else solids) as a subfigure and moves all of its content there, with every reference, attribute, color and transformation preserved and lengths converted to the units and scale of the receiver; "
     "the receiver's own content is unaffected and the source is left empty. "
     "A failed export changes neither model.",
     ["inputs", "histories"], "all pairs of models, units, scales and sequences of merges",
     "One test merges fixed sample files and does not compare contents.",
     ["src/iges/iges.cpp"], [("export", "src/iges/iges.cpp: IGES::Export")],
     observe=["the saved file of the receiver", "the source model"],
     tech="generated model pairs and merge sequences, receiver compared with the union of the reference models",
     note="Random exploration; trusts the reference parser and model.")

prop("C08", "Saving never destroys or silently truncates a file",
     "Saving refuses to replace an existing file unless asked to, leaves an existing file untouched when the model cannot be saved, and reports success only if the complete file reached the disk. "
     "The contents of a saved file do not depend on the process locale, and saving twice without changes gives the same file apart from dates.",
     ["fault_sequences", "configurations", "inputs"], "all models, write faults at every position, existing files, and locales",
     "The tests never write to a full disk, an existing file or under another locale.",
     ["src/iges/iges.cpp", "src/iges/iges_io.cpp"], [("saving", "src/iges/iges.cpp: IGES::Write")],
     observe=["return value of saving", "the file on disk"],
     tech="fault injection over generated models: file size limits at generated positions, existing files, locales",
     note="Random exploration with generated fault positions; disk faults are simulated with RLIMIT_FSIZE and /dev/full.")
def todo(id, title, statement, over, text, why, files, mech):
    prop(id, title, statement, over, text, why, files, mech, na="check not built yet")


def emit():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    done = set(x.strip() for x in open(os.path.join(HERE, "tools", "claimed")).read().split())
    checks, na = [], []
    for p in P:
        i = p["id"]
        tech, note, n = C[i]
        if i in done:
            checks.append({"property": i, "quick_cmd": "./run.py %s quick" % i, "thorough_cmd": "./run.py %s thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "exploration", "level_note": note})
        else:
            na.append({"property": i, "reason": n or "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "./run.py build", "checks": checks, "not_applicable": na},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import props2
    sys.modules["__main__"].__dict__
    props2.more(prop)
    emit()
