# GENERATED by tools/gen_tok.py: every token is its position
package internal/tok

# posOf: the position of a token
function posOf(any) any
define tpos(t any) := as(posOf(t), position)
define startOf(t any) := as(posOf(t), position).start
define endOf(t any) := as(posOf(t), position).end
define lineOf(t any) := as(posOf(t), position).line
define colOf(t any) := as(posOf(t), position).column
axiom posOfNone: forall x any :: {posOf(x)} typeis(x, None) ==> posOf(x) == box(position, as(x, None).position)
axiom posOfComment: forall x any :: {posOf(x)} typeis(x, Comment) ==> posOf(x) == box(position, as(x, Comment).position)
axiom posOfIndent: forall x any :: {posOf(x)} typeis(x, Indent) ==> posOf(x) == box(position, as(x, Indent).position)
axiom posOfDedent: forall x any :: {posOf(x)} typeis(x, Dedent) ==> posOf(x) == box(position, as(x, Dedent).position)
axiom posOfNewline: forall x any :: {posOf(x)} typeis(x, Newline) ==> posOf(x) == box(position, as(x, Newline).position)
axiom posOfEof: forall x any :: {posOf(x)} typeis(x, Eof) ==> posOf(x) == box(position, as(x, Eof).position)
axiom posOfIdent: forall x any :: {posOf(x)} typeis(x, Ident) ==> posOf(x) == box(position, as(x, Ident).position)
axiom posOfQualIdent: forall x any :: {posOf(x)} typeis(x, QualIdent) ==> posOf(x) == box(position, as(x, QualIdent).position)
axiom posOfBool: forall x any :: {posOf(x)} typeis(x, Bool) ==> posOf(x) == box(position, as(x, Bool).position)
axiom posOfInt: forall x any :: {posOf(x)} typeis(x, Int) ==> posOf(x) == box(position, as(x, Int).position)
axiom posOfFloat: forall x any :: {posOf(x)} typeis(x, Float) ==> posOf(x) == box(position, as(x, Float).position)
axiom posOfString: forall x any :: {posOf(x)} typeis(x, String) ==> posOf(x) == box(position, as(x, String).position)
axiom posOfBitString: forall x any :: {posOf(x)} typeis(x, BitString) ==> posOf(x) == box(position, as(x, BitString).position)
axiom posOfTime: forall x any :: {posOf(x)} typeis(x, Time) ==> posOf(x) == box(position, as(x, Time).position)
axiom posOfNeg: forall x any :: {posOf(x)} typeis(x, Neg) ==> posOf(x) == box(position, as(x, Neg).position)
axiom posOfAss: forall x any :: {posOf(x)} typeis(x, Ass) ==> posOf(x) == box(position, as(x, Ass).position)
axiom posOfAdd: forall x any :: {posOf(x)} typeis(x, Add) ==> posOf(x) == box(position, as(x, Add).position)
axiom posOfSub: forall x any :: {posOf(x)} typeis(x, Sub) ==> posOf(x) == box(position, as(x, Sub).position)
axiom posOfMul: forall x any :: {posOf(x)} typeis(x, Mul) ==> posOf(x) == box(position, as(x, Mul).position)
axiom posOfDiv: forall x any :: {posOf(x)} typeis(x, Div) ==> posOf(x) == box(position, as(x, Div).position)
axiom posOfRem: forall x any :: {posOf(x)} typeis(x, Rem) ==> posOf(x) == box(position, as(x, Rem).position)
axiom posOfExp: forall x any :: {posOf(x)} typeis(x, Exp) ==> posOf(x) == box(position, as(x, Exp).position)
axiom posOfEq: forall x any :: {posOf(x)} typeis(x, Eq) ==> posOf(x) == box(position, as(x, Eq).position)
axiom posOfNeq: forall x any :: {posOf(x)} typeis(x, Neq) ==> posOf(x) == box(position, as(x, Neq).position)
axiom posOfLess: forall x any :: {posOf(x)} typeis(x, Less) ==> posOf(x) == box(position, as(x, Less).position)
axiom posOfLessEq: forall x any :: {posOf(x)} typeis(x, LessEq) ==> posOf(x) == box(position, as(x, LessEq).position)
axiom posOfGreater: forall x any :: {posOf(x)} typeis(x, Greater) ==> posOf(x) == box(position, as(x, Greater).position)
axiom posOfGreaterEq: forall x any :: {posOf(x)} typeis(x, GreaterEq) ==> posOf(x) == box(position, as(x, GreaterEq).position)
axiom posOfAnd: forall x any :: {posOf(x)} typeis(x, And) ==> posOf(x) == box(position, as(x, And).position)
axiom posOfOr: forall x any :: {posOf(x)} typeis(x, Or) ==> posOf(x) == box(position, as(x, Or).position)
axiom posOfLShift: forall x any :: {posOf(x)} typeis(x, LShift) ==> posOf(x) == box(position, as(x, LShift).position)
axiom posOfRShift: forall x any :: {posOf(x)} typeis(x, RShift) ==> posOf(x) == box(position, as(x, RShift).position)
axiom posOfBitAnd: forall x any :: {posOf(x)} typeis(x, BitAnd) ==> posOf(x) == box(position, as(x, BitAnd).position)
axiom posOfBitOr: forall x any :: {posOf(x)} typeis(x, BitOr) ==> posOf(x) == box(position, as(x, BitOr).position)
axiom posOfXor: forall x any :: {posOf(x)} typeis(x, Xor) ==> posOf(x) == box(position, as(x, Xor).position)
axiom posOfLParen: forall x any :: {posOf(x)} typeis(x, LParen) ==> posOf(x) == box(position, as(x, LParen).position)
axiom posOfRParen: forall x any :: {posOf(x)} typeis(x, RParen) ==> posOf(x) == box(position, as(x, RParen).position)
axiom posOfLBracket: forall x any :: {posOf(x)} typeis(x, LBracket) ==> posOf(x) == box(position, as(x, LBracket).position)
axiom posOfRBracket: forall x any :: {posOf(x)} typeis(x, RBracket) ==> posOf(x) == box(position, as(x, RBracket).position)
axiom posOfComma: forall x any :: {posOf(x)} typeis(x, Comma) ==> posOf(x) == box(position, as(x, Comma).position)
axiom posOfSemicolon: forall x any :: {posOf(x)} typeis(x, Semicolon) ==> posOf(x) == box(position, as(x, Semicolon).position)
axiom posOfColon: forall x any :: {posOf(x)} typeis(x, Colon) ==> posOf(x) == box(position, as(x, Colon).position)
axiom posOfConst: forall x any :: {posOf(x)} typeis(x, Const) ==> posOf(x) == box(position, as(x, Const).position)
axiom posOfImport: forall x any :: {posOf(x)} typeis(x, Import) ==> posOf(x) == box(position, as(x, Import).position)
axiom posOfType: forall x any :: {posOf(x)} typeis(x, Type) ==> posOf(x) == box(position, as(x, Type).position)
axiom posOfBlock: forall x any :: {posOf(x)} typeis(x, Block) ==> posOf(x) == box(position, as(x, Block).position)
axiom posOfBus: forall x any :: {posOf(x)} typeis(x, Bus) ==> posOf(x) == box(position, as(x, Bus).position)
axiom posOfConfig: forall x any :: {posOf(x)} typeis(x, Config) ==> posOf(x) == box(position, as(x, Config).position)
axiom posOfGroup: forall x any :: {posOf(x)} typeis(x, Group) ==> posOf(x) == box(position, as(x, Group).position)
axiom posOfIrq: forall x any :: {posOf(x)} typeis(x, Irq) ==> posOf(x) == box(position, as(x, Irq).position)
axiom posOfMask: forall x any :: {posOf(x)} typeis(x, Mask) ==> posOf(x) == box(position, as(x, Mask).position)
axiom posOfMemory: forall x any :: {posOf(x)} typeis(x, Memory) ==> posOf(x) == box(position, as(x, Memory).position)
axiom posOfParam: forall x any :: {posOf(x)} typeis(x, Param) ==> posOf(x) == box(position, as(x, Param).position)
axiom posOfProc: forall x any :: {posOf(x)} typeis(x, Proc) ==> posOf(x) == box(position, as(x, Proc).position)
axiom posOfReturn: forall x any :: {posOf(x)} typeis(x, Return) ==> posOf(x) == box(position, as(x, Return).position)
axiom posOfStatic: forall x any :: {posOf(x)} typeis(x, Static) ==> posOf(x) == box(position, as(x, Static).position)
axiom posOfStatus: forall x any :: {posOf(x)} typeis(x, Status) ==> posOf(x) == box(position, as(x, Status).position)
axiom posOfStream: forall x any :: {posOf(x)} typeis(x, Stream) ==> posOf(x) == box(position, as(x, Stream).position)
axiom posOfAccess: forall x any :: {posOf(x)} typeis(x, Access) ==> posOf(x) == box(position, as(x, Access).position)
axiom posOfAddEnable: forall x any :: {posOf(x)} typeis(x, AddEnable) ==> posOf(x) == box(position, as(x, AddEnable).position)
axiom posOfAlign: forall x any :: {posOf(x)} typeis(x, Align) ==> posOf(x) == box(position, as(x, Align).position)
axiom posOfAtomic: forall x any :: {posOf(x)} typeis(x, Atomic) ==> posOf(x) == box(position, as(x, Atomic).position)
axiom posOfByteWriteEnable: forall x any :: {posOf(x)} typeis(x, ByteWriteEnable) ==> posOf(x) == box(position, as(x, ByteWriteEnable).position)
axiom posOfClear: forall x any :: {posOf(x)} typeis(x, Clear) ==> posOf(x) == box(position, as(x, Clear).position)
axiom posOfDelay: forall x any :: {posOf(x)} typeis(x, Delay) ==> posOf(x) == box(position, as(x, Delay).position)
axiom posOfEnableInitValue: forall x any :: {posOf(x)} typeis(x, EnableInitValue) ==> posOf(x) == box(position, as(x, EnableInitValue).position)
axiom posOfEnableResetValue: forall x any :: {posOf(x)} typeis(x, EnableResetValue) ==> posOf(x) == box(position, as(x, EnableResetValue).position)
axiom posOfInitValue: forall x any :: {posOf(x)} typeis(x, InitValue) ==> posOf(x) == box(position, as(x, InitValue).position)
axiom posOfInTrigger: forall x any :: {posOf(x)} typeis(x, InTrigger) ==> posOf(x) == box(position, as(x, InTrigger).position)
axiom posOfMasters: forall x any :: {posOf(x)} typeis(x, Masters) ==> posOf(x) == box(position, as(x, Masters).position)
axiom posOfOutTrigger: forall x any :: {posOf(x)} typeis(x, OutTrigger) ==> posOf(x) == box(position, as(x, OutTrigger).position)
axiom posOfRange: forall x any :: {posOf(x)} typeis(x, Range) ==> posOf(x) == box(position, as(x, Range).position)
axiom posOfReadLatency: forall x any :: {posOf(x)} typeis(x, ReadLatency) ==> posOf(x) == box(position, as(x, ReadLatency).position)
axiom posOfReadValue: forall x any :: {posOf(x)} typeis(x, ReadValue) ==> posOf(x) == box(position, as(x, ReadValue).position)
axiom posOfReset: forall x any :: {posOf(x)} typeis(x, Reset) ==> posOf(x) == box(position, as(x, Reset).position)
axiom posOfResetValue: forall x any :: {posOf(x)} typeis(x, ResetValue) ==> posOf(x) == box(position, as(x, ResetValue).position)
axiom posOfSize: forall x any :: {posOf(x)} typeis(x, Size) ==> posOf(x) == box(position, as(x, Size).position)
axiom posOfVirtual: forall x any :: {posOf(x)} typeis(x, Virtual) ==> posOf(x) == box(position, as(x, Virtual).position)
axiom posOfWidth: forall x any :: {posOf(x)} typeis(x, Width) ==> posOf(x) == box(position, as(x, Width).position)
axiom posOfPeriod: forall x any :: {posOf(x)} typeis(x, Period) ==> posOf(x) == box(position, as(x, Period).position)
axiom posOfLBrace: forall x any :: {posOf(x)} typeis(x, LBrace) ==> posOf(x) == box(position, as(x, LBrace).position)
axiom posOfRBrace: forall x any :: {posOf(x)} typeis(x, RBrace) ==> posOf(x) == box(position, as(x, RBrace).position)

func internal/tok.position.Start
  property C12, C18
  ensures result == pos.start
invoke internal/tok.Token.Start
  property C12, C18
  pure
  ensures result == tpos(recv).start

func internal/tok.position.End
  property C12, C18
  ensures result == pos.end
invoke internal/tok.Token.End
  property C12, C18
  pure
  ensures result == tpos(recv).end

func internal/tok.position.Line
  property C12, C18
  ensures result == pos.line
invoke internal/tok.Token.Line
  property C12, C18
  pure
  ensures result == tpos(recv).line

func internal/tok.position.Column
  property C12, C18
  ensures result == pos.column
invoke internal/tok.Token.Column
  property C12, C18
  pure
  ensures result == tpos(recv).column

func internal/tok.position.Src
  property C12, C18
  ensures result == pos.src
invoke internal/tok.Token.Src
  property C12, C18
  pure
  ensures result == tpos(recv).src

func internal/tok.position.Path
  property C12, C18
  ensures result == pos.path
invoke internal/tok.Token.Path
  property C12, C18
  pure
  ensures result == tpos(recv).path

func internal/tok.Join
  property C12, C18
  requires tok1 != nil && tok2 != nil && tpos(tok1).path == tpos(tok2).path && startOf(tok1) <= startOf(tok2)
  ensures typeis(result, None) && startOf(result) == startOf(tok1) && endOf(result) == endOf(tok2) && lineOf(result) == lineOf(tok1) && colOf(result) == colOf(tok1) && tpos(result).src == tpos(tok1).src && tpos(result).path == tpos(tok1).path
