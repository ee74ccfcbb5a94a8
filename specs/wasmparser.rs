// Contracts assumed on wasmparser 0.80.2 (TRUSTED): parsing is a function of the bytes; payloads tile the file.
macro_rules! vp_section_reader {
    ($($n:ident $i:ty;)*) => { ::vstd::prelude::verus! { $(
        #[verifier::external_body]
        pub struct $n<'a> { p: core::marker::PhantomData<&'a u8> }
        impl<'a> $n<'a> {
            pub uninterp spec fn vp_count(&self) -> u32;
            pub uninterp spec fn vp_view(&self) -> RV<$i>;
            #[verifier::external_body]
            pub fn get_count(&self) -> (r: u32) ensures r == self.vp_count() { unimplemented!() }
            #[verifier::external_body]
            pub fn original_position(&self) -> (r: usize) ensures r == self.vp_view().pos { unimplemented!() }
        }
        impl<'a> Clone for $n<'a> { #[verifier::external_body] fn clone(&self) -> (r: $n<'a>) ensures r == *self { unimplemented!() } }
        impl<'a> SectionReader for $n<'a> {
            type Item = $i;
            open spec fn rv(&self) -> RV<$i> { self.vp_view() }
            #[verifier::external_body]
            fn read(&mut self) -> Result<$i> { unimplemented!() }
            #[verifier::external_body]
            fn eof(&self) -> bool { unimplemented!() }
            #[verifier::external_body]
            fn original_position(&self) -> usize { unimplemented!() }
            #[verifier::external_body]
            fn vp_range(&self) -> Range { unimplemented!() }
            #[verifier::external_body]
            fn ensure_end(&self) -> Result<()> { unimplemented!() }
        }
        impl<'a> SectionWithLimitedItems for $n<'a> {
            open spec fn cnt(&self) -> u32 { self.vp_count() }
            #[verifier::external_body]
            fn get_count(&self) -> u32 { unimplemented!() }
        }
        impl<'a> VpIt for $n<'a> {
            type Out = VpIter<Result<$i>>;
            open spec fn vp_post(&self, o: VpIter<Result<$i>>) -> bool { limited(o@, self.rv().left, self.cnt() as int) }
            #[verifier::external_body]
            fn vp_it(self) -> VpIter<Result<$i>> { unimplemented!() }
        }
    )* } };
}
pub mod wasmparser {
use vstd::prelude::*;
use crate::vp::*;
verus! {
#[verifier::external_body]
pub struct BinaryReaderError { p: core::marker::PhantomData<u8> }
pub type Result<T> = core::result::Result<T, BinaryReaderError>;
impl From<BinaryReaderError> for crate::anyhow::Error { #[verifier::external_body] fn from(e: BinaryReaderError) -> crate::anyhow::Error { unimplemented!() } }
pub assume_specification<'a, T: Copy>[ core::option::Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
#[derive(Clone, Copy)]
pub struct Range { pub start: usize, pub end: usize }

/// What is left to read in a section: entries that can be read, with the bytes each takes.
pub ghost struct RV<T> { pub pos: int, pub end: int, pub left: Seq<(T, int)> }
pub open spec fn taken<T>(s: Seq<(T, int)>, k: int) -> int decreases k { if k <= 0 || k > s.len() { 0 } else { taken(s, k - 1) + s[k - 1].1 } }
impl<T> RV<T> {
    pub open spec fn ok(self) -> bool {
        &&& 0 <= self.pos <= self.end <= usize::MAX
        &&& forall|i: int| 0 <= i < self.left.len() ==> (#[trigger] self.left[i]).1 >= 1
        &&& self.pos + taken(self.left, self.left.len() as int) <= self.end
    }
    /// The section consists of `n` entries and nothing else.
    pub open spec fn full(self, n: int) -> bool { self.left.len() >= n && (n > 0 ==> self.pos + taken(self.left, n) == self.end) }
}
/// The results of reading up to `n` entries, ending with the first error.
pub open spec fn limited<T, E>(o: Seq<core::result::Result<T, E>>, left: Seq<(T, int)>, n: int) -> bool {
    &&& o.len() == (if n <= left.len() { n } else { left.len() + 1int })
    &&& forall|i: int| 0 <= i < o.len() ==> (if i < left.len() { #[trigger] o[i] == core::result::Result::<T, E>::Ok(left[i].0) } else { o[i] is Err })
}
pub trait SectionReader: Sized {
    type Item;
    spec fn rv(&self) -> RV<Self::Item>;
    fn read(&mut self) -> (r: Result<Self::Item>)
        ensures final(self).rv().end == old(self).rv().end, final(self).rv().pos >= old(self).rv().pos,
            match r {
                Ok(x) => old(self).rv().left.len() > 0 && x == old(self).rv().left[0].0 && final(self).rv().pos == old(self).rv().pos + old(self).rv().left[0].1
                    && final(self).rv().left == old(self).rv().left.drop_first(),
                Err(_) => old(self).rv().left.len() == 0,
            };
    fn eof(&self) -> (r: bool) ensures r == (self.rv().pos >= self.rv().end);
    fn original_position(&self) -> (r: usize) ensures r == self.rv().pos;
    fn vp_range(&self) -> (r: Range) ensures r.end == self.rv().end, r.start <= r.end;
    fn ensure_end(&self) -> (r: Result<()>) ensures r is Ok <==> self.rv().pos >= self.rv().end;
}
pub trait SectionWithLimitedItems {
    spec fn cnt(&self) -> u32;
    fn get_count(&self) -> (r: u32) ensures r == self.cnt();
}
/// Readers stay within their section, and every entry takes at least one byte.
#[verifier::external_body]
pub broadcast proof fn axiom_reader<R: SectionReader>(r: R) ensures (#[trigger] r.rv()).ok() { }

#[derive(Clone, Copy)]
pub enum Type { I32, I64, F32, F64, V128, FuncRef, ExternRef, ExnRef, Func, EmptyBlockType }
pub struct FuncType { pub params: Box<[Type]>, pub returns: Box<[Type]> }
#[verifier::external_body]
pub struct ModuleType<'a> { p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
pub struct InstanceType<'a> { p: core::marker::PhantomData<&'a u8> }
pub enum TypeDef<'a> { Func(FuncType), Instance(InstanceType<'a>), Module(ModuleType<'a>) }
#[verifier::external_body]
pub struct TableType { p: core::marker::PhantomData<u8> }
#[verifier::external_body]
pub struct MemoryType { p: core::marker::PhantomData<u8> }
#[verifier::external_body]
pub struct TagType { p: core::marker::PhantomData<u8> }
pub struct GlobalType { pub content_type: Type, pub mutable: bool }
pub enum ImportSectionEntryType { Function(u32), Table(TableType), Memory(MemoryType), Tag(TagType), Global(GlobalType), Module(u32), Instance(u32) }
pub struct Import<'a> { pub module: &'a str, pub field: Option<&'a str>, pub ty: ImportSectionEntryType }
pub enum ExternalKind { Function, Table, Memory, Tag, Global, Type, Module, Instance }
pub struct Export<'a> { pub field: &'a str, pub kind: ExternalKind, pub index: u32 }
#[derive(Clone, Copy)]
pub struct MemoryImmediate { pub align: u8, pub offset: u64, pub memory: u32 }
/// The operators that are told apart.
pub enum Operator<'a> {
    Call { function_index: u32 }, CallIndirect { index: u32, table_index: u32 },
    GlobalGet { global_index: u32 }, GlobalSet { global_index: u32 },
    I32Load { memarg: MemoryImmediate }, I64Load { memarg: MemoryImmediate }, F32Load { memarg: MemoryImmediate }, F64Load { memarg: MemoryImmediate },
    I32Load8S { memarg: MemoryImmediate }, I32Load8U { memarg: MemoryImmediate }, I32Load16S { memarg: MemoryImmediate }, I32Load16U { memarg: MemoryImmediate },
    I64Load8S { memarg: MemoryImmediate }, I64Load8U { memarg: MemoryImmediate }, I64Load16S { memarg: MemoryImmediate }, I64Load16U { memarg: MemoryImmediate },
    I64Load32S { memarg: MemoryImmediate }, I64Load32U { memarg: MemoryImmediate },
    I32Store { memarg: MemoryImmediate }, I64Store { memarg: MemoryImmediate }, F32Store { memarg: MemoryImmediate }, F64Store { memarg: MemoryImmediate },
    I32Store8 { memarg: MemoryImmediate }, I32Store16 { memarg: MemoryImmediate }, I64Store8 { memarg: MemoryImmediate }, I64Store16 { memarg: MemoryImmediate }, I64Store32 { memarg: MemoryImmediate },
    I32Const { value: i32 }, I64Const { value: i64 },
    LocalGet { local_index: u32 }, LocalSet { local_index: u32 }, LocalTee { local_index: u32 },
    RefFunc { function_index: u32 }, ReturnCall { function_index: u32 }, ReturnCallIndirect { index: u32, table_index: u32 },
    Nop, Drop, End, Return, Unreachable,
    Others(core::marker::PhantomData<&'a u8>),
}
#[verifier::external_body]
pub struct InitExpr<'a> { p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
pub struct OperatorsReader<'a> { p: core::marker::PhantomData<&'a u8> }
impl<'a> OperatorsReader<'a> {
    /// The operators that can be read from here on.
    pub uninterp spec fn ops(&self) -> Seq<Operator<'a>>;
    /// Whether anything but operators follows.
    pub uninterp spec fn bad(&self) -> bool;
    #[verifier::external_body]
    pub fn read(&mut self) -> (r: Result<Operator<'a>>)
        ensures match r {
            Ok(x) => old(self).ops().len() > 0 && x == old(self).ops()[0] && final(self).ops() == old(self).ops().drop_first() && final(self).bad() == old(self).bad(),
            Err(_) => old(self).ops().len() == 0,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn eof(&self) -> (r: bool) ensures r ==> self.ops().len() == 0, !self.bad() && self.ops().len() == 0 ==> r { unimplemented!() }
}
impl<'a> VpIt for OperatorsReader<'a> {
    type Out = VpIter<Result<Operator<'a>>>;
    open spec fn vp_post(&self, o: VpIter<Result<Operator<'a>>>) -> bool {
        &&& o@.len() == self.ops().len() + (if self.bad() { 1int } else { 0 })
        &&& forall|i: int| 0 <= i < o@.len() ==> (if i < self.ops().len() { #[trigger] o@[i] == Result::<Operator<'a>>::Ok(self.ops()[i]) } else { o@[i] is Err })
    }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<Result<Operator<'a>>> { unimplemented!() }
}
impl<'a> InitExpr<'a> {
    pub uninterp spec fn ops(&self) -> Seq<Operator<'a>>;
    #[verifier::external_body]
    pub fn get_operators_reader(&self) -> (r: OperatorsReader<'a>) ensures r.ops() == self.ops() { unimplemented!() }
}
#[verifier::external_body]
pub struct FunctionBody<'a> { p: core::marker::PhantomData<&'a u8> }
impl<'a> FunctionBody<'a> {
    pub uninterp spec fn ops(&self) -> Seq<Operator<'a>>;
    #[verifier::external_body]
    pub fn get_operators_reader(&self) -> (r: Result<OperatorsReader<'a>>) ensures r matches Ok(x) ==> x.ops() == self.ops() { unimplemented!() }
}
pub struct Global<'a> { pub ty: GlobalType, pub init_expr: InitExpr<'a> }
pub enum ElementKind<'a> { Passive, Active { table_index: u32, init_expr: InitExpr<'a> }, Declared }
pub enum ElementItem { Null(Type), Func(u32) }
#[verifier::external_body]
pub struct ElementItems<'a> { p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
pub struct ElementItemsReader<'a> { p: core::marker::PhantomData<&'a u8> }
impl<'a> ElementItems<'a> {
    pub uninterp spec fn items(&self) -> Seq<ElementItem>;
    #[verifier::external_body]
    pub fn get_items_reader(&self) -> (r: Result<ElementItemsReader<'a>>) ensures r matches Ok(x) ==> x.items() == self.items() { unimplemented!() }
}
impl<'a> ElementItemsReader<'a> {
    pub uninterp spec fn items(&self) -> Seq<ElementItem>;
    pub uninterp spec fn bad(&self) -> bool;
}
impl<'a> VpIt for ElementItemsReader<'a> {
    type Out = VpIter<Result<ElementItem>>;
    open spec fn vp_post(&self, o: VpIter<Result<ElementItem>>) -> bool {
        &&& o@.len() == self.items().len() + (if self.bad() { 1int } else { 0 })
        &&& forall|i: int| 0 <= i < o@.len() ==> (if i < self.items().len() { #[trigger] o@[i] == Result::<ElementItem>::Ok(self.items()[i]) } else { o@[i] is Err })
    }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<Result<ElementItem>> { unimplemented!() }
}
pub struct Element<'a> { pub kind: ElementKind<'a>, pub items: ElementItems<'a>, pub ty: Type }
pub enum DataKind<'a> { Passive, Active { memory_index: u32, init_expr: InitExpr<'a> } }
pub struct Data<'a> { pub kind: DataKind<'a>, pub data: &'a [u8] }
#[verifier::external_body]
pub struct Alias<'a> { p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
pub struct Instance<'a> { p: core::marker::PhantomData<&'a u8> }
} // verus!
vp_section_reader! {
    TypeSectionReader TypeDef<'a>;
    ImportSectionReader Import<'a>;
    AliasSectionReader Alias<'a>;
    InstanceSectionReader Instance<'a>;
    FunctionSectionReader u32;
    TableSectionReader TableType;
    MemorySectionReader MemoryType;
    TagSectionReader TagType;
    GlobalSectionReader Global<'a>;
    ExportSectionReader Export<'a>;
    ElementSectionReader Element<'a>;
    DataSectionReader Data<'a>;
    CodeSectionReader FunctionBody<'a>;
}
verus! {
/// The bytes of a data segment are part of its entry.
#[verifier::external_body]
pub proof fn axiom_data<'a>(r: DataSectionReader<'a>, i: int)
    requires 0 <= i < r.rv().left.len()
    ensures r.rv().left[i].0.data@.len() <= r.rv().left[i].1
{ }
pub uninterp spec fn code_view<'a>(s: Seq<u8>, o: int) -> RV<FunctionBody<'a>>;
pub uninterp spec fn code_count(s: Seq<u8>, o: int) -> u32;
impl<'a> CodeSectionReader<'a> {
    #[verifier::external_body]
    pub fn new(data: &'a [u8], original_offset: usize) -> (r: Result<CodeSectionReader<'a>>)
        ensures r matches Ok(x) ==> x.rv() == code_view::<'a>(data@, original_offset as int) && x.cnt() == code_count(data@, original_offset as int) && x.rv().pos >= original_offset && x.rv().end == original_offset + data@.len()
    { unimplemented!() }
}
#[verifier::external_body]
pub struct SingleName<'a> { p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
pub struct NameMap<'a> { p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
pub struct IndirectNameMap<'a> { p: core::marker::PhantomData<&'a u8> }
#[verifier::external_body]
pub struct NamingReader<'a> { p: core::marker::PhantomData<&'a u8> }
pub struct Naming<'a> { pub index: u32, pub name: &'a str }
impl<'a> NameMap<'a> {
    #[verifier::external_body]
    pub fn get_map(&self) -> (r: Result<NamingReader<'a>>) { unimplemented!() }
}
impl<'a> NamingReader<'a> {
    #[verifier::external_body]
    pub fn get_count(&self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self) -> (r: Result<Naming<'a>>) { unimplemented!() }
}
pub enum Name<'a> {
    Module(SingleName<'a>), Function(NameMap<'a>), Local(IndirectNameMap<'a>), Label(IndirectNameMap<'a>), Type(NameMap<'a>), Table(NameMap<'a>),
    Memory(NameMap<'a>), Global(NameMap<'a>), Element(NameMap<'a>), Data(NameMap<'a>), Unknown { ty: u8, data: &'a [u8], range: Range },
}
#[verifier::external_body]
pub struct NameSectionReader<'a> { p: core::marker::PhantomData<&'a u8> }
impl<'a> NameSectionReader<'a> {
    pub uninterp spec fn pos(&self) -> nat;
    pub uninterp spec fn end(&self) -> int;
    #[verifier::external_body]
    pub fn new(data: &'a [u8], offset: usize) -> (r: Result<NameSectionReader<'a>>) ensures r matches Ok(x) ==> x.pos() == offset && x.end() == offset + data@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn eof(&self) -> (r: bool) ensures r == (self.pos() >= self.end()) { unimplemented!() }
    #[verifier::external_body]
    pub fn original_position(&self) -> (r: usize) ensures r == self.pos() { unimplemented!() }
    /// Reads at least the byte that says what follows, also when it fails.
    #[verifier::external_body]
    pub fn read(&mut self) -> (r: Result<Name<'a>>)
        ensures final(self).end() == old(self).end(), old(self).pos() < old(self).end() ==> old(self).pos() < final(self).pos() <= old(self).end()
    { unimplemented!() }
}
impl<'a> VpIt for NameSectionReader<'a> {
    type Out = VpIter<Result<Name<'a>>>;
    open spec fn vp_post(&self, o: VpIter<Result<Name<'a>>>) -> bool { true }
    #[verifier::external_body]
    fn vp_it(self) -> VpIter<Result<Name<'a>>> { unimplemented!() }
}
pub enum Payload<'a> {
    Version { num: u32, range: Range },
    TypeSection(TypeSectionReader<'a>), ImportSection(ImportSectionReader<'a>), AliasSection(AliasSectionReader<'a>), InstanceSection(InstanceSectionReader<'a>),
    FunctionSection(FunctionSectionReader<'a>), TableSection(TableSectionReader<'a>), MemorySection(MemorySectionReader<'a>), TagSection(TagSectionReader<'a>),
    GlobalSection(GlobalSectionReader<'a>), ExportSection(ExportSectionReader<'a>), StartSection { func: u32, range: Range }, ElementSection(ElementSectionReader<'a>),
    DataCountSection { count: u32, range: Range }, DataSection(DataSectionReader<'a>), CustomSection { name: &'a str, data_offset: usize, data: &'a [u8], range: Range },
    CodeSectionStart { count: u32, range: Range, size: u32 }, CodeSectionEntry(FunctionBody<'a>),
    ModuleSectionStart { count: u32, range: Range, size: u32 }, ModuleSectionEntry { parser: Parser, range: Range },
    UnknownSection { id: u8, contents: &'a [u8], range: Range }, End,
}
pub enum Chunk<'a> { NeedMoreData(u64), Parsed { consumed: usize, payload: Payload<'a> } }
#[verifier::external_body]
pub struct Parser { p: core::marker::PhantomData<u8> }
/// How far a parser has come: the bytes seen, and where the code section that was begun ends.
pub ghost struct PState { pub offset: int, pub code_end: int, pub rest: int }
impl View for Parser { type V = PState; uninterp spec fn view(&self) -> PState; }
/// One step of the parser: the bytes consumed, the payload found, and the state afterwards.
pub uninterp spec fn stepped<'a>(st: PState, s: Seq<u8>) -> Option<(int, Payload<'a>, PState)>;
pub uninterp spec fn parser_at(o: int) -> PState;
#[verifier::external_body]
pub proof fn axiom_parser_at(o: int) ensures parser_at(o).offset == o, parser_at(o).code_end <= o { }
/// Whether a reader of entries covers a payload that starts at `o` and takes `c` bytes.
pub open spec fn within<T>(v: RV<T>, o: int, c: int) -> bool { o <= v.pos && v.end == o + c }
pub open spec fn payload_within(p: Payload, o: int, c: int) -> bool {
    match p {
        Payload::TypeSection(r) => within(r.rv(), o, c),
        Payload::ImportSection(r) => within(r.rv(), o, c),
        Payload::FunctionSection(r) => within(r.rv(), o, c),
        Payload::TableSection(r) => within(r.rv(), o, c),
        Payload::MemorySection(r) => within(r.rv(), o, c),
        Payload::GlobalSection(r) => within(r.rv(), o, c),
        Payload::ExportSection(r) => within(r.rv(), o, c),
        Payload::ElementSection(r) => within(r.rv(), o, c),
        Payload::DataSection(r) => within(r.rv(), o, c),
        Payload::CustomSection { name, data_offset, data, range } => data_offset >= o && data_offset + data@.len() <= o + c,
        Payload::StartSection { func, range } => o <= range.start <= range.end <= o + c,
        _ => true,
    }
}
/// Every payload takes bytes; the bodies of the code section follow its start and fill it before anything else comes.
#[verifier::external_body]
pub proof fn axiom_stepped<'a>(st: PState, s: Seq<u8>)
    requires s.len() > 0, stepped::<'a>(st, s) is Some
    ensures ({
        let (c, p, t) = stepped::<'a>(st, s)->Some_0; let o = st.offset;
        &&& 0 < c <= s.len() && t.offset == o + c
        &&& payload_within(p, o, c)
        &&& match p {
            Payload::CodeSectionStart { count, range, size } => st.code_end <= o && range.start == o + c && range.start <= range.end && t.code_end == range.end,
            Payload::CodeSectionEntry(b) => o + c <= st.code_end && t.code_end == st.code_end,
            _ => st.code_end <= o && t.code_end == st.code_end,
        }
    })
{ }
impl Parser {
    #[verifier::external_body]
    pub fn new(offset: u64) -> (r: Parser) ensures r@ == parser_at(offset as int) { unimplemented!() }
    /// The parser is never told that the data ends here while there is some left.
    #[verifier::external_body]
    pub fn parse<'a>(&mut self, data: &'a [u8], eof: bool) -> (r: Result<Chunk<'a>>)
        ensures r matches Ok(Chunk::Parsed { consumed, payload }) ==> (!eof ==> stepped::<'a>(old(self)@, data@) == Some((consumed as int, payload, final(self)@)))
    { unimplemented!() }
}
} // verus!
}
