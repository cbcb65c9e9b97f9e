#!/usr/bin/env python3
# writes /verif/properties.jsonl
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=None)))

p('C01','Access descriptors state exactly where the bits of a functionality are',
 'Every access descriptor which the compiler makes for a single functionality or an array describes exactly the registers and bits which its documented layout gives to the items: register count, start and end address, start and end bit, width occupied in the first and in the last register, item count and item width all agree with each other and with the bus width. A descriptor is never made for a layout in which the items do not fit, and the address range of a descriptor is its start and end address.',
 ['inputs','configurations'],'for every bus width, address, start bit, item count and item width',
 'The unit tests compare a few dozen descriptors for bus width 32; the arithmetic (rounding up, remainders, items which exactly fill a register) has to be right for every combination of five integers.',
 ['pkg/fbdl/types/access.go'],[('descriptor constructors','pkg/fbdl/types/access.go Make*Access'),('address range','pkg/fbdl/types/access.go AddrRange')],
 ['fields of the access objects of the JSON output'])
p('C02','No two functionalities of a block share a register bit',
 'Within the register space of a block every register bit belongs to at most one functionality, whatever the mix, order, count and width of procs, streams, configs, masks, statics, statuses and irqs. Every functionality gets a descriptor for its own width and count, and all the bits it occupies lie within the number of registers which the block reports as its own size.',
 ['programs','configurations'],'for every block content and every bus width',
 'Overlap depends on the interaction of all functionalities of a block through the shared address counter and the pool of unused bits; tests place only a few small blocks on a 32-bit bus.',
 ['internal/reg/reg.go','internal/reg/config.go','internal/reg/mask.go','internal/reg/static.go','internal/reg/status.go','internal/reg/irq.go','internal/reg/proc.go','internal/reg/stream.go','internal/gap/pool.go'],
 [('address counter threaded through the placement functions','internal/reg/reg.go regFunctionalities'),('gap pool','internal/gap/pool.go')],
 ['access objects of the JSON output'],[('addr','first register which is not yet used','internal/reg/reg.go'),('gp','bits which are left over in used registers','internal/reg/reg.go')])
p('C03','Left over register bits are reused only when unused, wide enough and safe',
 'Bits left over at the end of a register are offered for reuse at most once, only to a functionality which fits into them, and the narrowest suitable offer is taken. A functionality whose access requires a write is placed in left over bits only if nothing else in that register reacts to a write, and this stays true when a left over part is split again.',
 ['histories','programs'],'for every sequence of additions to and requests from the pool, and every order in which functionalities use it',
 'The pool is a mutable sorted list edited in place while it is iterated; the defects show after particular sequences of additions and requests with equal widths or mixed safety.',
 ['internal/gap/pool.go','internal/reg/status.go','internal/reg/irq.go','internal/reg/static.go','internal/reg/config.go'],
 [('sorted insertion and first fit search','internal/gap/pool.go'),('write safe flag','internal/reg/status.go, internal/reg/irq.go')],
 ['access objects of irqs and statuses in the JSON output'],[('singles','available left over bits, narrowest first','internal/gap/pool.go')])
p('C04','Address spaces of blocks are aligned, nested and disjoint',
 'The address space of every block contains the address spaces of all its subblocks and has room for its own registers in front of them; address spaces of different subblocks do not overlap, a block which is an array gets one space of equal size for each of its items, and sizes add up over the hierarchy. Where no alignment is given every address space has a power of two size and starts at a multiple of it; where one is given the size is a multiple of it.',
 ['programs','configurations'],'for every tree of blocks, block arrays, own sizes and alignments',
 'It is a statement about trees of unbounded depth and fan-out; the tests fix the result of a handful of two level trees.',
 ['internal/reg/reg.go','internal/reg/assign.go','internal/util/util.go'],
 [('size aggregation','internal/reg/reg.go regBlock, alignBlockSize'),('top down assignment from the end of the space, biggest first','internal/reg/assign.go')],
 ['sizes and address space of blocks in the JSON output'])
p('C05','Procedures and streams pack their arguments and expose the right strobes',
 'The parameters and then the returns of a procedure, and the parameters or returns of a stream, are placed in declaration order one directly after another without holes, starting at bit 0 of a register which nothing else uses. The call address is the register of the last bit of the last parameter, the exit address the one of the last return, the stream strobe the one of the last argument; a procedure without parameters is called at its first register, a delayed procedure without returns exits at its call address, and registers after the last argument are left for others.',
 ['programs','configurations'],'for every list of parameters and returns, item widths, counts and bus widths',
 'Whether the next argument starts in the same register depends on a running bit position over unbounded lists; tests cover a few lists on 32 bits.',
 ['internal/reg/proc.go','internal/reg/stream.go'],[('running address and bit position','internal/reg/proc.go regProc, internal/reg/stream.go'),('call, exit and strobe selection','internal/reg/proc.go, internal/reg/stream.go')],
 ['access objects, call, exit and strobe addresses of the JSON output'])
p('C06','Widths are derived from ranges and defaults correctly',
 'The width of a functionality is the one given explicitly, otherwise the smallest number of bits which holds every value of its range, otherwise the default of its kind. A range is accepted only if its bounds are in order, so every accepted range has a width of at least one bit, and a width given together with a range is refused.',
 ['inputs','programs'],'for every range, width and bus width',
 'The width is computed over the whole range of 64-bit bounds; tests use a few small ones.',
 ['pkg/fbdl/types/range.go','internal/ins/config.go','internal/ins/param.go','internal/ins/block.go'],[('bit width of a range','pkg/fbdl/types/range.go'),('defaults','internal/ins/*.go')],
 ['width of functionalities in the JSON output'])
p('C07','Property values are accepted only when they are valid for their functionality',
 'A property assignment is accepted only if the property exists for the kind of functionality, is given once, and its value has the right type and lies in the documented range (positive widths, non-negative alignments and delays, the allowed strings for triggers and clears, natural masters counts); any other assignment ends with an error which names the property and never changes the compiled result silently.',
 ['programs','inputs'],'for every functionality kind, property name and value',
 'Names, kinds and value types multiply; the tests try one wrong example each.',
 ['internal/ins/check.go','internal/util/util.go','internal/prs/prop.go'],[('value checks','internal/ins/check.go'),('table of properties','internal/util/util.go IsValidProperty')],
 ['error message and exit status'])
p('C08','Initial, reset and read values denote the given number and fit the width',
 'A number given in the source as an initial, reset, read or enable value becomes a bit string of exactly the width of its functionality which denotes that number, in two\'s complement when it is negative. A bit string given in the source denotes the same bits in the compiled result. A number which does not fit into the width and a bit string which is wider than it are refused.',
 ['inputs','programs'],'for every value, base and width',
 'Padding and base conversion depend on the residue of the width modulo the bits of a digit and on every digit; tests cover a few widths.',
 ['internal/val/bit_str.go','internal/ins/config.go','internal/ins/mask.go','internal/ins/static.go','internal/ins/irq.go','pkg/fbdl/types/bit_str.go'],
 [('conversion of a number','internal/val/bit_str.go BitStrFromInt'),('extension','pkg/fbdl/types/bit_str.go Extend')],['value fields of the JSON output'])
p('C09','Bit string operations preserve the denoted bits',
 'Converting a bit string between binary, octal and hexadecimal, extending it and reading it as an unsigned number preserve the bits it denotes; its width is the number of digits times the bits of one digit. Bits without a known value stay unknown bits in the same place.',
 ['inputs'],'for every bit string of every base and length',
 'The operations work digit by digit on strings of any length; tests use single examples.',
 ['internal/val/bit_str.go','pkg/fbdl/types/bit_str.go'],[('digit tables','internal/val/bit_str.go'),('conversion loops','pkg/fbdl/types/bit_str.go')],['value fields of the JSON output'])
p('C10','Constant expressions evaluate to the exact value or are refused',
 'Evaluating an expression yields the mathematically exact result of its operators on integers, the documented result on booleans, strings, bit strings, times and ranges, and a refusal naming the problem for operand types an operator does not support. It never yields a wrapped around or rounded integer and never aborts the compiler. Arithmetic operators accept only integers.',
 ['inputs','programs'],'for every operator and all operand values and types',
 'The operand space is 64-bit by 64-bit for each operator, with division by zero, overflow and exponentiation at its edges.',
 ['internal/prs/expr.go','internal/val'],[('operator evaluation','internal/prs/expr.go')],['constants in the constants dump, widths and values in the JSON output'])
p('C11','Expressions are parsed according to operator precedence and parentheses',
 'The tree built for an expression groups operators by their documented precedence, operators of equal precedence from left to right, a sign like an addition, and parenthesised parts first, so every fully parenthesised writing of the tree means the same as the original text. The whole expression text is consumed and nothing after it.',
 ['inputs'],'for every sequence of operands, operators and parentheses',
 'Grouping is decided by recursion over token sequences of any length.',
 ['internal/ast/expr.go','internal/tok/token.go'],[('precedence climbing','internal/ast/expr.go'),('precedence table','internal/tok')],['values of constants'])
p('C12','Tokens tile the source text in order with exact positions',
 'The tokens of a source text are in order and do not overlap, each covers exactly the characters it stands for, lies within the text and knows the right line and column, and only blanks and comments lie between them. Indentation tokens mark a change of the indentation and cover no text of their own. A successful tokenization ends with exactly one end of file token, and never closes more indentation levels than it has opened.',
 ['inputs'],'for every source text',
 'It is a statement about every string; the tests tokenize some short snippets.',
 ['internal/tok/parse.go','internal/tok/token.go','internal/tok/context.go'],[('scanner','internal/tok/parse.go'),('indentation context','internal/tok/context.go')],['positions in error messages, names and values in the result'])
p('C13','Names resolve to the innermost enclosing definition',
 'A name used in an expression or as a type refers to the definition with that name in the closest enclosing scope, at last the package or the file\'s imports. A name which is defined nowhere is an error, and a qualified name refers only to the named package.',
 ['programs'],'for every nesting of scopes and every set of definitions',
 'Scopes nest to any depth and names can be shadowed at every level; tests use one or two levels.',
 ['internal/prs/symbol_container.go','internal/prs/body.go','internal/prs/file.go','internal/prs/pkg.go','internal/prs/import.go'],[('scope chain','internal/prs GetSymbol methods')],['values of constants and types of instances in the result'])
p('C14','Only allowed functionalities are instantiated, under unique names',
 'A functionality is instantiated only inside a kind of functionality which may contain it, and no two functionalities of the same parent get the same name; anything else is refused. Every instantiated functionality appears exactly once in its parent\'s list of its kind, under its own name and with its item count.',
 ['programs'],'for every combination of inner and outer kinds and every set of names',
 'The table of kinds is 13 by 13 and names interact across kinds, types and inheritance.',
 ['internal/util/util.go','internal/ins/ins.go','internal/ins/block.go','internal/util/block/block.go','internal/util/group/group.go'],[('kind table','internal/util/util.go IsValidInnerType'),('name check','internal/util/block/block.go HasFunctionality')],['error message, names in the JSON output'])
p('C15','Arguments bind to the parameters they name or whose position they take',
 'When a parametrised type is instantiated every parameter gets the argument given by name, or by position for positional arguments, or its default. Missing, surplus, repeated and unknown arguments are refused, and the binding is used only within that instantiation.',
 ['programs'],'for every list of parameters with and without defaults and every list of positional and named arguments',
 'The combinations of positional, named and default values grow exponentially with the list; tests try a handful.',
 ['internal/ins/args.go','internal/ast/arg.go','internal/ast/param.go','internal/prs/arg.go','internal/prs/param.go'],[('binding','internal/ins/args.go')],['result of instantiation'])
p('C16','Time literals denote the exact duration',
 'A time literal denotes a whole number of seconds and nanoseconds with fewer than 10^9 nanoseconds, equal to the given number of the given unit. A literal which cannot be represented is refused and never turns into another duration.',
 ['inputs'],'for every number and unit','Conversion multiplies a 64-bit number; only small values are tested.',
 ['internal/prs/expr.go','internal/val/time.go'],[('conversion','internal/prs/expr.go Time')],['delay in the JSON output'])
p('C17','Exported constants carry the value and kind which the source gives them',
 'Every constant of a package, block or group appears in the exported constants exactly once, under its own name, in the collection of its kind (bool, float, integer, string, list of bools, list of integers) and with its exact value; a list keeps the order and number of its elements. A constant of any other kind is refused and never dropped.',
 ['programs'],'for every set of constants and lists of every kind','Kinds, nesting in lists and emptiness multiply.',
 ['internal/util/constContainer/constContainer.go'],[('dispatch on the kind of a value','internal/util/constContainer/constContainer.go')],['constants dump'])
p('C18','No source text makes the front end crash or hang',
 'For every source text tokenization and syntax tree building end, either with a result or with an error that has a position within the text. They never panic, never read outside the text and never loop forever.',
 ['inputs'],'for every source text','Index arithmetic over every possible string; tests use well formed snippets.',
 ['internal/tok/parse.go','internal/tok/error.go','internal/ast'],[('scanner loops','internal/tok/parse.go'),('token cursor','internal/ast')],['exit status'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
