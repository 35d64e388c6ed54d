import json
T={
'P01':'property-based testing: generated production lists against a direct well-formedness oracle',
'P02':'property-based testing: generated grammars against a direct set model of the production list',
'P03':'property-based testing: generated grammars, differential against an independent FIRST oracle',
'P04':'property-based testing: generated grammars, differential against an independent FOLLOW oracle',
'P05':'property-based testing: generated grammars, differential against an independently built prediction table',
'P06':'property-based testing: generated grammars and inputs, derivation-tree validity oracle',
'P07':'property-based testing: generated LL(1) grammars and inputs, differential against a table-driven LL(1) parser and a chart',
'P08':'property-based testing: generated conflicting grammars, differential against a chart parser and an ordered-search model',
'P09':'property-based testing / fuzzing: hostile token streams, no-panic and no-crash oracle',
'P10':'property-based testing: generated invalid inputs, structural invariant of the error tree',
'P11':'property-based testing: generated invalid inputs, error tree checked against a reference search',
'P12':'property-based testing: generated solver answers, differential against the parser without solver',
'P13':'property-based testing (model-based): generated solver answer sequences, consultation log checked against the contract',
'P14':'property-based testing (model-based): generated solver fixes, fixed tree checked against the consultation log',
'P15':'property-based testing (stateful): generated histories of parses, each compared with fresh parsers',
'P16':'property-based testing (metamorphic): renaming, symbol types with colliding hashes, production interleaving',
'P17':'property-based testing: counted symbol operations against polynomial/linear bounds on scaled generated grammars and inputs',
'P18':'property-based testing (metamorphic): relexed inputs, lexeme preservation',
'P19':'property-based testing: generated LL(1) grammars and inputs, error position against a viable-prefix chart, metamorphic change of the tail',
'P22':'property-based testing: counted heap bytes against linear/polynomial bounds on scaled generated inputs, growth over repetitions',
'P23':'property-based testing: generated values, equality, cloning and round-trip through the public fields',
'P21':'property-based testing (model-based): generated solver answer sequences, consultations and result replayed in a reference search',
'P24':'property-based testing: generated grammars and inputs with tokens left over, differential against an ordered-search model',
'P20':'property-based testing: generated FIRST/FOLLOW sets, differential against a table and search built from the same sets',
}
N={k:'proptest-driven generation from a fixed seed with shrinking to a replay file; sampled'+(' after an exhaustive enumeration of small grammars and inputs' if k in 'P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P19 P21 P24'.split() else ', not exhaustive') for k in T}
N['P08']+='; known finding P08-nested-choice is matched by its signature (chart accepts, ordered search without nested revisiting rejects)'
T=dict(sorted(T.items()))
m={'version':1,'setup_cmd':'./build.sh','checks':[{'property':k,'quick_cmd':f'./check.sh {k}','thorough_cmd':f'env VERIF_TIER=thorough ./check.sh {k}','evidence_file':f'evidence/{k}.json','technique':T[k],'level':'exploration','level_note':N[k]} for k in T],'not_applicable':[]}
json.dump(m,open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','MANIFEST.json'),'w'),indent=1)
