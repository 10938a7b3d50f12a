#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib'); sys.dont_write_bytecode = True
from checks import TABLE

TR = 'TLA+ specification, TLC: '
NOTE = {
 'C01': (TR + 'exhaustive model runs replayed into the search, recorded searches judged by the specification', 'Every derivation set is computed by Search.tla and compared as a bag; exhaustive over the model\'s grammars and phrases, sampled beyond (seeded grammars, sample data). Class combinations per phrase are bounded to 60 and phrases to 7 tokens.'),
 'C02': (TR + 'recorded best matches and match rows judged by the specification', 'Exact rational comparison of mean scores in the specification; scores are multiples of 1/4096 so float sums are exact.'),
 'C03': (TR + 'end-to-end model (MCPipeline) plus recorded standardizations judged by Pipeline.tla', 'Whole pipeline recomputed from the address by the specification; bounded address length and class combinations.'),
 'C04': (TR + 'recorded standard texts judged by Classify.tla and Pipeline.tla', 'Lexicons with several entries per key; seeded.'),
 'C05': (TR + 'tokenizer state machine, exhaustive short texts replayed, recorded texts judged', 'Character classes come from ICU tables of the installed Python unicodedata; unusual locales are excluded.'),
 'C06': (TR + 'recorded classifications judged by Classify.tla', 'As C05.'),
 'C07': (TR + 'recorded splits judged by Tokenizer.tla', 'As C05; affix sets and words are seeded and overlapping by construction.'),
 'C08': (TR + 'recorded alternatives judged by Tokenizer.tla', 'At most 5 splittable tokens per address.'),
 'C09': (TR + 'filter histories and recorded tokenizations judged by Tokenizer.tla', 'Histories of filter changes up to 8 long.'),
 'C10': (TR + 'loader state machine, exhaustive small grammars replayed, recorded loads judged by GrammarLoad.tla', 'Lines are drawn from a vocabulary that covers every line kind and its malformed variants.'),
 'C11': (TR + 'loader state machine, exhaustive small lexicons replayed, recorded loads judged by LexiconLoad.tla', 'As C10.'),
 'C12': (TR + 'edit-history model whose edges are replayed into a lexicon, recorded histories judged', 'Edge coverage of the model graph plus random histories.'),
 'C13': (TR + 'compiled-lexicon model, recorded answers of text and compiled form judged', 'Version edits and truncations are applied to real archives.'),
 'C14': (TR + 'cache state machine, paths replayed into the SQL layer on a stub PostgreSQL runtime, recorded events judged', 'The stub implements memory contexts, hash tables and errors after PostgreSQL 16; no server is installed here.'),
 'C15': (TR + 'cache state machine with faults, paths replayed, creation and release events judged', 'As C14, built with AddressSanitizer.'),
 'C16': (TR + 'recorded outcomes of API calls on valid and broken arguments judged', 'AddressSanitizer build; allocation failure is the subject of C24.'),
 'C17': (TR + 'recorded answers to equivalent spellings judged by Pipeline.tla', 'Unicode tables of the installed Python; unusual locales excluded.'),
 'C18': (TR + 'recorded dumps and conversions judged by the load specifications', 'As C10.'),
 'C19': (TR + 'termination and bound of the search state machine model-checked, recursive grammars replayed under a time limit', 'Time limit 20 s per call against model sizes that need milliseconds.'),
 'C20': (TR + 'handle-history state machine replayed, recorded histories judged', 'Histories up to 12 calls over up to 3 handles.'),
 'C21': (TR + 'set-returning protocol model, interleavings replayed into the SQL layer on a stub runtime', 'As C14.'),
 'C23': (TR + 'step-by-step ownership model (MCLedger) whose histories are replayed, bytes held after every call judged by Ledger.tla', 'AddressSanitizer counts the bytes; every history runs at least three times in one process.'),
 'C24': (TR + 'failing steps of the ownership model replayed as failed allocations, answers and bytes held judged by Api.tla and Ledger.tla', 'operator new fails; malloc itself (strdup, ICU) does not. Positions are sampled.'),
 'C25': (TR + 'digests fed in pieces model-checked against the whole, recorded digests judged by Digest.tla (MD5 itself)', 'Texts up to 60 kB.'),
 'C26': (TR + 'walks of iterators over bytes and code points model-checked and replayed, recorded walks, encodings and unaccented texts judged', 'Valid UTF-8; Unicode tables of the installed Python.'),
 'C28': (TR + 'file-and-tool state machine enumerated and replayed; everything the tools print judged by Tools.tla', 'Well-formed file names; times, counters, digests and expressions printed by the tools are left out.'),
 'C27': (TR + 'object-history state machines enumerated and replayed, recorded histories judged by Values.tla', 'Two objects of a kind; scores are multiples of 1/2 before they are summed.'),
 'C22': (TR + 'dictionary model, recorded word lists judged by Trie.tla', 'Word lists up to 12 words.'),
}

def main():
    props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
    checks = []
    for p in props:
        if p not in TABLE: continue
        t, n = NOTE[p]
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': 'model_checking', 'level_note': n})
    m = {'version': 1, 'setup_cmd': 'python3 lib/build.py ' + ' '.join(['core', 'core:asan'] + (['pg', 'pg:asan'] if os.path.exists(V + '/harness/drv_pg.cpp') else [])),
         'checks': checks,
         'not_applicable': [{'property': p, 'reason': 'The check of this property is not built yet.'} for p in props if p not in TABLE],
         'notes': 'Specification language: TLA+ with TLC (see DESIGN.md). No hooks are needed in /repo: every observation is made through public entry points.'}
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

main()
