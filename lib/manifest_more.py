checks['C11'] = ('symbolic execution (LLVM IR) of the generated token matching with z3, token variants and fields symbolic, against hand-written classification',
                 'Exhaustive for every sequence of up to the stated number of tokens with any variant and field values, per catalogue token type expanded by the real macro. Trusted: the executor, z3, the classification written next to each token type; other token types and patterns are outside the claim.')
checks['C13'] = (A.replace('of the generated parser', 'of generated parsers of large grammars'),
                 'Grammars with 300 terminals, 300 non-terminals, 300 entry points, 300 symbols in a production, over 65536 states; token kinds are decided one by one, payloads stay symbolic; for the longest inputs only a head and a tail of the tokens are free. '
                 'Over 65536 productions or non-terminals: refused, or explored like the others. Productions of over 65535 symbols are outside the claim (the expansion takes too long).')
D = "symbolic execution (LLVM IR) of the whole macro with z3, %s"
checks['C14'] = (D % 'grammar symbolic, expanded three times in surroundings that differ',
                 'Exhaustive for every grammar of the stated shapes and every replacement of one production of a catalogue grammar up to the stated length. The surroundings (hash keys, clock, process number, environment, memory layout) take three fixed values each; '
                 'the compiler handing over the tokens is not part of it.')
checks['C15'] = (D.replace('the whole macro', "the macro's front end and the whole macro") % 'token sequences with symbolic tokens, words and strings, against an independent reader of the notation',
                 'Exhaustive for every sequence of the stated number of free tokens inside fixed frames, every single edit of the fixed texts, every word and string of the stated lengths. Types, expressions and paths inside are read by syn on both sides.')
checks['C16'] = ('symbolic execution (LLVM IR) of generated parsers with z3, two symbolic inputs and the place of the one parse in the other symbolic, against each parse alone in a copy of the module',
                 'Exhaustive for every pair of inputs (errors of the input included) up to the stated lengths, for every catalogue grammar and every entry point, the second parse before the first or inside any call of its iterator or actions. '
                 'One thread; histories of two and three parses.')
checks['C17'] = (D % 'grammar symbolic, instructions bounded',
                 'Exhaustive for every grammar of the stated shapes and every replacement of one production of a catalogue grammar up to the stated length (conflicting and unproductive ones included). '
                 'Not ending is: more than 5*10^8 instructions in one expansion (20 times the longest met), or calls nested over 20000 deep; confirmed by a native run that does not end in 20 s or exhausts the stack or memory.')
