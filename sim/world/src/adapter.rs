//! Walks everything the library reports about a class and turns it into the neutral token form.
//! This is the only file that knows the library's public types.
use cafebabe::attributes::*;
use cafebabe::bytecode::*;
use cafebabe::constant_pool::*;
use cafebabe::descriptors::*;
use cafebabe::{ClassAccessFlags, ClassFile, FieldAccessFlags, FieldInfo, MethodAccessFlags, MethodInfo};
use simkit::tok::Sink;
use std::fmt::Write;

/// The bits of a set of flags, unless a name of one of them tells another story.
macro_rules! flags {
    ($t:ty, $v:expr, $($name:ident $bit:literal)*) => {{
        let v = $v;
        #[allow(unused_mut)]
        let mut odd = 0i64;
        $(
            if <$t>::$name.bits() != $bit || v.contains(<$t>::$name) != (v.bits() & $bit != 0) || v.intersects(<$t>::$name) != (v.bits() & $bit != 0) {
                odd |= $bit;
            }
        )*
        v.bits() as i64 | odd << 20 | ((v.is_empty() != (v.bits() == 0)) as i64) << 40
    }};
}

pub struct Walk<'s, S: Sink> {
    pub sink: &'s mut S,
    lo: usize,
    hi: usize,
    buf: String,
}

fn ptr_range(b: &[u8]) -> (usize, usize) {
    (b.as_ptr() as usize, b.as_ptr() as usize + b.len())
}

impl<'s, S: Sink> Walk<'s, S> {
    pub fn new(image: &[u8], sink: &'s mut S) -> Self {
        let (lo, hi) = ptr_range(image);
        Walk { sink, lo, hi, buf: String::new() }
    }
    fn inside(&self, b: &[u8]) -> bool {
        let (lo, hi) = ptr_range(b);
        lo >= self.lo && hi <= self.hi
    }
    fn text(&mut self, l: &'static str, s: &str) {
        let i = self.inside(s.as_bytes());
        self.sink.str(l, s, i);
    }
    fn raw(&mut self, l: &'static str, b: &[u8]) {
        let i = self.inside(b);
        self.sink.raw(l, b, i);
    }
    fn num<T: Into<i64>>(&mut self, l: &'static str, v: T) {
        self.sink.num(l, v.into());
    }
    fn open(&mut self, l: &'static str) {
        self.sink.open(l);
    }
    fn close(&mut self) {
        self.sink.close();
    }
    fn mark(&mut self, l: &'static str) {
        self.open(l);
        self.close();
    }
    fn opt(&mut self, l: &'static str, s: Option<&str>) {
        match s {
            Some(s) => self.text(l, s),
            None => self.num(l, -1),
        }
    }
    fn shown(&mut self, d: &dyn std::fmt::Display) {
        let mut b = std::mem::take(&mut self.buf);
        b.clear();
        let _ = write!(b, "{}", d);
        self.sink.str("shown", &b, false);
        self.buf = b;
    }
    fn list<T>(&mut self, l: &'static str, xs: &[T], f: fn(&mut Self, &T)) {
        self.open(l);
        for x in xs {
            if !self.sink.more() {
                break;
            }
            f(self, x);
        }
        self.close();
    }

    fn field_desc(&mut self, d: &FieldDescriptor) {
        self.open("type");
        self.num("dims", d.dimensions);
        let base = match &d.field_type {
            FieldType::Object(c) => {
                self.text("class", c);
                0
            }
            FieldType::Byte => b'B',
            FieldType::Char => b'C',
            FieldType::Double => b'D',
            FieldType::Float => b'F',
            FieldType::Integer => b'I',
            FieldType::Long => b'J',
            FieldType::Short => b'S',
            FieldType::Boolean => b'Z',
        };
        if base != 0 {
            self.num("base", base);
        }
        self.shown(d);
        self.close();
    }
    fn method_desc(&mut self, d: &MethodDescriptor) {
        self.open("descriptor");
        for p in &d.parameters {
            self.field_desc(p);
        }
        match &d.return_type {
            ReturnDescriptor::Void => self.num("void", 1),
            ReturnDescriptor::Return(f) => self.field_desc(f),
        }
        self.shown(d);
        self.close();
    }
    fn name_and_type(&mut self, n: &NameAndType) {
        self.text("name", &n.name);
        self.text("descriptor", &n.descriptor);
    }
    fn member_ref(&mut self, m: &MemberRef) {
        self.text("class", &m.class_name);
        self.name_and_type(&m.name_and_type);
    }
    fn literal(&mut self, c: &LiteralConstant) {
        match c {
            LiteralConstant::Integer(v) => self.num("int", *v),
            LiteralConstant::Float(v) => self.num("float", v.to_bits()),
            LiteralConstant::Long(v) => self.num("long", *v),
            LiteralConstant::Double(v) => self.num("double", v.to_bits() as i64),
            LiteralConstant::String(s) => self.text("string", s),
            LiteralConstant::StringBytes(b) => self.raw("stringbytes", b),
        }
    }
    fn handle(&mut self, h: &MethodHandle) {
        self.open("methodhandle");
        self.mark(match h.kind {
            ReferenceKind::GetField => "getfield",
            ReferenceKind::GetStatic => "getstatic",
            ReferenceKind::PutField => "putfield",
            ReferenceKind::PutStatic => "putstatic",
            ReferenceKind::InvokeVirtual => "invokevirtual",
            ReferenceKind::InvokeStatic => "invokestatic",
            ReferenceKind::InvokeSpecial => "invokespecial",
            ReferenceKind::NewInvokeSpecial => "newinvokespecial",
            ReferenceKind::InvokeInterface => "invokeinterface",
        });
        self.mark(match h.member_kind {
            MemberKind::Field => "field",
            MemberKind::Method => "method",
            MemberKind::InterfaceMethod => "interfacemethod",
        });
        self.text("class", &h.class_name);
        self.name_and_type(&h.member_ref);
        self.close();
    }
    fn dynamic(&mut self, d: &Dynamic) {
        self.open("dynamic");
        self.num("bootstrap", d.attr_index);
        self.name_and_type(&d.name_and_type);
        self.close();
    }
    fn loadable(&mut self, l: &Loadable) {
        match l {
            Loadable::LiteralConstant(c) => self.literal(c),
            Loadable::ClassInfo(c) => self.text("classconst", c),
            Loadable::MethodHandle(h) => self.handle(h),
            Loadable::MethodType(t) => self.text("methodtype", t),
            Loadable::Dynamic(d) => self.dynamic(d),
        }
    }
    fn bootstrap_arg(&mut self, a: &BootstrapArgument) {
        match a {
            BootstrapArgument::LiteralConstant(c) => self.literal(c),
            BootstrapArgument::ClassInfo(c) => self.text("classconst", c),
            BootstrapArgument::MethodHandle(h) => self.handle(h),
            BootstrapArgument::MethodType(t) => self.text("methodtype", t),
            BootstrapArgument::Dynamic(d) => self.dynamic(d),
        }
    }
    pub fn constant(&mut self, c: &ConstantPoolItem) {
        match c {
            ConstantPoolItem::LiteralConstant(c) => self.literal(c),
            ConstantPoolItem::ClassInfo(c) => self.text("classconst", c),
            ConstantPoolItem::MethodHandle(h) => self.handle(h),
            ConstantPoolItem::MethodType(t) => self.text("methodtype", t),
            ConstantPoolItem::Dynamic(d) => self.dynamic(d),
            ConstantPoolItem::ModuleInfo(m) => self.text("module", m),
            ConstantPoolItem::PackageInfo(m) => self.text("package", m),
            ConstantPoolItem::FieldRef(m) => {
                self.open("fieldref");
                self.member_ref(m);
                self.close();
            }
            ConstantPoolItem::MethodRef(m) => {
                self.open("methodref");
                self.member_ref(m);
                self.close();
            }
            ConstantPoolItem::InterfaceMethodRef(m) => {
                self.open("interfacemethodref");
                self.member_ref(m);
                self.close();
            }
            ConstantPoolItem::NameAndType(n) => {
                self.open("nameandtype");
                self.name_and_type(n);
                self.close();
            }
            ConstantPoolItem::InvokeDynamic(d) => {
                self.open("invokedynamic");
                self.num("bootstrap", d.attr_index);
                self.name_and_type(&d.name_and_type);
                self.close();
            }
        }
    }

    fn verification(&mut self, v: &VerificationType) {
        let m = match v {
            VerificationType::Top => "top",
            VerificationType::Integer => "integer",
            VerificationType::Float => "float",
            VerificationType::Long => "long",
            VerificationType::Double => "double",
            VerificationType::Null => "null",
            VerificationType::UninitializedThis => "uninitializedthis",
            VerificationType::Uninitialized { code_offset } => return self.num("uninitialized", *code_offset),
            VerificationType::Object { class_name } => return self.text("object", class_name),
        };
        self.mark(m);
    }
    fn frame(&mut self, f: &StackMapEntry) {
        match f {
            StackMapEntry::Same { offset_delta } => {
                self.open("same");
                self.num("delta", *offset_delta);
            }
            StackMapEntry::SameLocals1StackItem { offset_delta, stack } => {
                self.open("same1");
                self.num("delta", *offset_delta);
                self.verification(stack);
            }
            StackMapEntry::Chop { offset_delta, chop_count } => {
                self.open("chop");
                self.num("delta", *offset_delta);
                self.num("chop", *chop_count);
            }
            StackMapEntry::Append { offset_delta, locals } => {
                self.open("append");
                self.num("delta", *offset_delta);
                for l in locals {
                    self.verification(l);
                }
            }
            StackMapEntry::FullFrame { offset_delta, locals, stack } => {
                self.open("full");
                self.num("delta", *offset_delta);
                self.list("locals", locals, Self::verification);
                self.list("stack", stack, Self::verification);
            }
        }
        self.close();
    }
    fn annotation(&mut self, a: &Annotation) {
        self.open("annotation");
        self.field_desc(&a.type_descriptor);
        self.list("elements", &a.elements, |w, e| {
            w.text("name", &e.name);
            w.element(&e.value);
        });
        self.close();
    }
    fn element(&mut self, v: &AnnotationElementValue) {
        match v {
            AnnotationElementValue::ByteConstant(v) => self.num("byte", *v),
            AnnotationElementValue::CharConstant(v) => self.num("char", *v),
            AnnotationElementValue::IntConstant(v) => self.num("int", *v),
            AnnotationElementValue::ShortConstant(v) => self.num("short", *v),
            AnnotationElementValue::BooleanConstant(v) => self.num("boolean", *v),
            AnnotationElementValue::DoubleConstant(v) => self.num("double", v.to_bits() as i64),
            AnnotationElementValue::FloatConstant(v) => self.num("float", v.to_bits()),
            AnnotationElementValue::LongConstant(v) => self.num("long", *v),
            AnnotationElementValue::StringConstant(s) => self.text("string", s),
            AnnotationElementValue::EnumConstant { type_name, const_name } => {
                self.open("enum");
                self.field_desc(type_name);
                self.text("const", const_name);
                self.close();
            }
            AnnotationElementValue::ClassLiteral { class_name } => self.text("classliteral", class_name),
            AnnotationElementValue::AnnotationValue(a) => self.annotation(a),
            AnnotationElementValue::ArrayValue(vs) => self.list("array", vs, Self::element),
        }
    }
    fn type_annotation(&mut self, t: &TypeAnnotation) {
        self.open("typeannotation");
        match &t.target_type {
            TypeAnnotationTarget::TypeParameter { index } => {
                self.open("typeparameter");
                self.num("index", *index);
            }
            TypeAnnotationTarget::Supertype { index } => {
                self.open("supertype");
                self.num("index", *index);
            }
            TypeAnnotationTarget::TypeParameterBound { type_parameter_index, bound_index } => {
                self.open("typeparameterbound");
                self.num("parameter", *type_parameter_index);
                self.num("bound", *bound_index);
            }
            TypeAnnotationTarget::Empty => self.open("empty"),
            TypeAnnotationTarget::FormalParameter { index } => {
                self.open("formalparameter");
                self.num("index", *index);
            }
            TypeAnnotationTarget::Throws { index } => {
                self.open("throws");
                self.num("index", *index);
            }
            TypeAnnotationTarget::LocalVar(rs) => {
                self.open("localvar");
                self.list("ranges", rs, |w, r| {
                    w.num("start_pc", r.start_pc);
                    w.num("length", r.length);
                    w.num("index", r.index);
                });
            }
            TypeAnnotationTarget::Catch { exception_table_index } => {
                self.open("catch");
                self.num("index", *exception_table_index);
            }
            TypeAnnotationTarget::Offset { offset } => {
                self.open("offset");
                self.num("offset", *offset);
            }
            TypeAnnotationTarget::TypeArgument { offset, type_argument_index } => {
                self.open("typeargument");
                self.num("offset", *offset);
                self.num("index", *type_argument_index);
            }
        }
        self.close();
        self.list("path", &t.target_path, |w, p| {
            w.mark(match p.path_kind {
                TypeAnnotationTargetPathKind::DeeperArray => "array",
                TypeAnnotationTargetPathKind::DeeperNested => "nested",
                TypeAnnotationTargetPathKind::WildcardTypeArgument => "wildcard",
                TypeAnnotationTargetPathKind::TypeArgument => "argument",
            });
            w.num("argument", p.argument_index);
        });
        self.annotation(&t.annotation);
        self.close();
    }
    fn classes(&mut self, l: &'static str, cs: &[std::borrow::Cow<str>]) {
        self.list(l, cs, |w, c| w.text("class", c));
    }
    fn code(&mut self, c: &CodeData) {
        self.num("max_stack", c.max_stack);
        self.num("max_locals", c.max_locals);
        self.raw("code", c.code);
        if let Some(b) = &c.bytecode {
            self.open("bytecode");
            for (pc, op) in &b.opcodes {
                if !self.sink.more() {
                    break;
                }
                self.num("pc", *pc as i64);
                self.opcode(op);
            }
            self.close();
        }
        self.list("exception_table", &c.exception_table, |w, e| {
            w.num("start_pc", e.start_pc);
            w.num("end_pc", e.end_pc);
            w.num("handler_pc", e.handler_pc);
            w.opt("catch", e.catch_type.as_deref());
        });
        self.attributes(&c.attributes);
    }
    fn module(&mut self, m: &ModuleData) {
        self.text("name", &m.name);
        self.num("flags", flags!(ModuleAccessFlags, m.access_flags, OPEN 0x20 SYNTHETIC 0x1000 MANDATED 0x8000));
        self.opt("version", m.version.as_deref());
        self.list("requires", &m.requires, |w, r| {
            w.text("name", &r.name);
            w.num("flags", flags!(ModuleRequiresFlags, r.flags, TRANSITIVE 0x20 STATIC_PHASE 0x40 SYNTHETIC 0x1000 MANDATED 0x8000));
            w.opt("version", r.version.as_deref());
        });
        self.list("exports", &m.exports, |w, e| {
            w.text("package", &e.package_name);
            w.num("flags", flags!(ModuleExportsFlags, e.flags, SYNTHETIC 0x1000 MANDATED 0x8000));
            w.list("to", &e.exports_to, |w, m| w.text("module", m));
        });
        self.list("opens", &m.opens, |w, e| {
            w.text("package", &e.package_name);
            w.num("flags", flags!(ModuleOpensFlags, e.flags, SYNTHETIC 0x1000 MANDATED 0x8000));
            w.list("to", &e.opens_to, |w, m| w.text("module", m));
        });
        self.classes("uses", &m.uses);
        self.list("provides", &m.provides, |w, p| {
            w.text("service", &p.service_interface_name);
            w.classes("with", &p.provides_with);
        });
    }
    fn attribute(&mut self, a: &AttributeInfo) {
        self.open("attribute");
        self.text("name", &a.name);
        match &a.data {
            AttributeData::ConstantValue(c) => {
                self.open("ConstantValue");
                self.literal(c);
                self.close();
            }
            AttributeData::Code(c) => {
                self.open("Code");
                self.code(c);
                self.close();
            }
            AttributeData::StackMapTable(fs) => self.list("StackMapTable", fs, Self::frame),
            AttributeData::Exceptions(cs) => self.classes("Exceptions", cs),
            AttributeData::InnerClasses(cs) => self.list("InnerClasses", cs, |w, c| {
                w.open("inner");
                w.text("inner_class", &c.inner_class_info);
                w.opt("outer_class", c.outer_class_info.as_deref());
                w.opt("inner_name", c.inner_name.as_deref());
                w.num("flags", flags!(InnerClassAccessFlags, c.access_flags, PUBLIC 0x1 PRIVATE 0x2 PROTECTED 0x4 STATIC 0x8 FINAL 0x10 INTERFACE 0x200 ABSTRACT 0x400 SYNTHETIC 0x1000 ANNOTATION 0x2000 ENUM 0x4000));
                w.close();
            }),
            AttributeData::EnclosingMethod { class_name, method } => {
                self.open("EnclosingMethod");
                self.text("class", class_name);
                match method {
                    None => self.num("method", -1),
                    Some(m) => self.name_and_type(m),
                }
                self.close();
            }
            AttributeData::Synthetic => self.mark("Synthetic"),
            AttributeData::Deprecated => self.mark("Deprecated"),
            AttributeData::Signature(t) => {
                self.open("Signature");
                self.text("text", t);
                self.close();
            }
            AttributeData::SourceFile(t) => {
                self.open("SourceFile");
                self.text("text", t);
                self.close();
            }
            AttributeData::SourceDebugExtension(t) => {
                self.open("SourceDebugExtension");
                self.text("text", t);
                self.close();
            }
            AttributeData::LineNumberTable(ls) => self.list("LineNumberTable", ls, |w, l| {
                w.num("start_pc", l.start_pc);
                w.num("line", l.line_number);
            }),
            AttributeData::LocalVariableTable(vs) => self.list("LocalVariableTable", vs, |w, v| {
                w.num("start_pc", v.start_pc);
                w.num("length", v.length);
                w.text("name", &v.name);
                w.field_desc(&v.descriptor);
                w.num("index", v.index);
            }),
            AttributeData::LocalVariableTypeTable(vs) => self.list("LocalVariableTypeTable", vs, |w, v| {
                w.num("start_pc", v.start_pc);
                w.num("length", v.length);
                w.text("name", &v.name);
                w.text("signature", &v.signature);
                w.num("index", v.index);
            }),
            AttributeData::RuntimeVisibleAnnotations(x) => self.list("RuntimeVisibleAnnotations", x, Self::annotation),
            AttributeData::RuntimeInvisibleAnnotations(x) => self.list("RuntimeInvisibleAnnotations", x, Self::annotation),
            AttributeData::RuntimeVisibleParameterAnnotations(x) => self.list("RuntimeVisibleParameterAnnotations", x, |w, p| w.list("parameter", &p.annotations, Self::annotation)),
            AttributeData::RuntimeInvisibleParameterAnnotations(x) => self.list("RuntimeInvisibleParameterAnnotations", x, |w, p| w.list("parameter", &p.annotations, Self::annotation)),
            AttributeData::RuntimeVisibleTypeAnnotations(x) => self.list("RuntimeVisibleTypeAnnotations", x, Self::type_annotation),
            AttributeData::RuntimeInvisibleTypeAnnotations(x) => self.list("RuntimeInvisibleTypeAnnotations", x, Self::type_annotation),
            AttributeData::AnnotationDefault(v) => {
                self.open("AnnotationDefault");
                self.element(v);
                self.close();
            }
            AttributeData::BootstrapMethods(bs) => self.list("BootstrapMethods", bs, |w, b| {
                w.open("bootstrap");
                w.handle(&b.method);
                w.list("arguments", &b.arguments, Self::bootstrap_arg);
                w.close();
            }),
            AttributeData::MethodParameters(ps) => self.list("MethodParameters", ps, |w, p| {
                w.opt("name", p.name.as_deref());
                w.num("flags", flags!(MethodParameterAccessFlags, p.access_flags, FINAL 0x10 SYNTHETIC 0x1000 MANDATED 0x8000));
            }),
            AttributeData::Module(m) => {
                self.open("Module");
                self.module(m);
                self.close();
            }
            AttributeData::ModulePackages(ps) => self.list("ModulePackages", ps, |w, p| w.text("package", p)),
            AttributeData::ModuleMainClass(c) => {
                self.open("ModuleMainClass");
                self.text("class", c);
                self.close();
            }
            AttributeData::NestHost(c) => {
                self.open("NestHost");
                self.text("class", c);
                self.close();
            }
            AttributeData::NestMembers(cs) => self.classes("NestMembers", cs),
            AttributeData::PermittedSubclasses(cs) => self.classes("PermittedSubclasses", cs),
            AttributeData::Record(rs) => self.list("Record", rs, |w, r| {
                w.open("component");
                w.text("name", &r.name);
                w.field_desc(&r.descriptor);
                w.attributes(&r.attributes);
                w.close();
            }),
            AttributeData::Other(b) => {
                self.open("Other");
                self.raw("bytes", b);
                self.close();
            }
        }
        self.close();
    }
    fn attributes(&mut self, xs: &[AttributeInfo]) {
        self.list("attributes", xs, Self::attribute);
    }
    fn field(&mut self, f: &FieldInfo) {
        self.open("member");
        self.num("flags", flags!(FieldAccessFlags, f.access_flags, PUBLIC 0x1 PRIVATE 0x2 PROTECTED 0x4 STATIC 0x8 FINAL 0x10 VOLATILE 0x40 TRANSIENT 0x80 SYNTHETIC 0x1000 ENUM 0x4000));
        self.text("name", &f.name);
        self.field_desc(&f.descriptor);
        self.attributes(&f.attributes);
        self.close();
    }
    fn method(&mut self, m: &MethodInfo) {
        self.open("member");
        self.num("flags", flags!(MethodAccessFlags, m.access_flags, PUBLIC 0x1 PRIVATE 0x2 PROTECTED 0x4 STATIC 0x8 FINAL 0x10 SYNCHRONIZED 0x20 BRIDGE 0x40 VARARGS 0x80 NATIVE 0x100 ABSTRACT 0x400 STRICT 0x800 SYNTHETIC 0x1000));
        self.text("name", &m.name);
        self.method_desc(&m.descriptor);
        self.attributes(&m.attributes);
        self.close();
    }
    pub fn class(&mut self, c: &ClassFile) {
        self.num("major", c.major_version);
        self.num("minor", c.minor_version);
        self.num("flags", flags!(ClassAccessFlags, c.access_flags, PUBLIC 0x1 FINAL 0x10 SUPER 0x20 INTERFACE 0x200 ABSTRACT 0x400 SYNTHETIC 0x1000 ANNOTATION 0x2000 ENUM 0x4000 MODULE 0x8000));
        self.text("this_class", &c.this_class);
        self.opt("super_class", c.super_class.as_deref());
        self.list("interfaces", &c.interfaces, |w, i| w.text("interface", i));
        self.list("fields", &c.fields, Self::field);
        self.list("methods", &c.methods, Self::method);
        self.attributes(&c.attributes);
    }

    fn obj(&mut self, o: &ObjectArrayType) {
        match o {
            ObjectArrayType::ArrayType(d) => {
                self.open("arraytype");
                self.field_desc(d);
                self.close();
            }
            ObjectArrayType::BinaryName(n) => self.text("classtype", n),
        }
    }
    pub fn opcode(&mut self, op: &Opcode) {
        use Opcode::*;
        let name = match op {
            Aaload => "aaload",
            Aastore => "aastore",
            AconstNull => "aconstnull",
            Aload(..) => "aload",
            Anewarray(..) => "anewarray",
            Areturn => "areturn",
            Arraylength => "arraylength",
            Astore(..) => "astore",
            Athrow => "athrow",
            Baload => "baload",
            Bastore => "bastore",
            Bipush(..) => "bipush",
            Breakpoint => "breakpoint",
            Caload => "caload",
            Castore => "castore",
            Checkcast(..) => "checkcast",
            D2f => "d2f",
            D2i => "d2i",
            D2l => "d2l",
            Dadd => "dadd",
            Daload => "daload",
            Dastore => "dastore",
            Dcmpg => "dcmpg",
            Dcmpl => "dcmpl",
            Dconst0 => "dconst0",
            Dconst1 => "dconst1",
            Ddiv => "ddiv",
            Dload(..) => "dload",
            Dmul => "dmul",
            Dneg => "dneg",
            Drem => "drem",
            Dreturn => "dreturn",
            Dstore(..) => "dstore",
            Dsub => "dsub",
            Dup => "dup",
            DupX1 => "dupx1",
            DupX2 => "dupx2",
            Dup2 => "dup2",
            Dup2X1 => "dup2x1",
            Dup2X2 => "dup2x2",
            F2d => "f2d",
            F2i => "f2i",
            F2l => "f2l",
            Fadd => "fadd",
            Faload => "faload",
            Fastore => "fastore",
            Fcmpg => "fcmpg",
            Fcmpl => "fcmpl",
            Fconst0 => "fconst0",
            Fconst1 => "fconst1",
            Fconst2 => "fconst2",
            Fdiv => "fdiv",
            Fload(..) => "fload",
            Fmul => "fmul",
            Fneg => "fneg",
            Frem => "frem",
            Freturn => "freturn",
            Fstore(..) => "fstore",
            Fsub => "fsub",
            Getfield(..) => "getfield",
            Getstatic(..) => "getstatic",
            Goto(..) => "goto",
            I2b => "i2b",
            I2c => "i2c",
            I2d => "i2d",
            I2f => "i2f",
            I2l => "i2l",
            I2s => "i2s",
            Iadd => "iadd",
            Iaload => "iaload",
            Iand => "iand",
            Iastore => "iastore",
            IconstM1 => "iconstm1",
            Iconst0 => "iconst0",
            Iconst1 => "iconst1",
            Iconst2 => "iconst2",
            Iconst3 => "iconst3",
            Iconst4 => "iconst4",
            Iconst5 => "iconst5",
            Idiv => "idiv",
            IfAcmpeq(..) => "ifacmpeq",
            IfAcmpne(..) => "ifacmpne",
            IfIcmpeq(..) => "ificmpeq",
            IfIcmpge(..) => "ificmpge",
            IfIcmpgt(..) => "ificmpgt",
            IfIcmple(..) => "ificmple",
            IfIcmplt(..) => "ificmplt",
            IfIcmpne(..) => "ificmpne",
            Ifeq(..) => "ifeq",
            Ifge(..) => "ifge",
            Ifgt(..) => "ifgt",
            Ifle(..) => "ifle",
            Iflt(..) => "iflt",
            Ifne(..) => "ifne",
            Ifnonnull(..) => "ifnonnull",
            Ifnull(..) => "ifnull",
            Iinc(..) => "iinc",
            Iload(..) => "iload",
            Impdep1 => "impdep1",
            Impdep2 => "impdep2",
            Imul => "imul",
            Ineg => "ineg",
            Instanceof(..) => "instanceof",
            Invokedynamic(..) => "invokedynamic",
            Invokeinterface(..) => "invokeinterface",
            Invokespecial(..) => "invokespecial",
            Invokestatic(..) => "invokestatic",
            Invokevirtual(..) => "invokevirtual",
            Ior => "ior",
            Irem => "irem",
            Ireturn => "ireturn",
            Ishl => "ishl",
            Ishr => "ishr",
            Istore(..) => "istore",
            Isub => "isub",
            Iushr => "iushr",
            Ixor => "ixor",
            Jsr(..) => "jsr",
            L2d => "l2d",
            L2f => "l2f",
            L2i => "l2i",
            Ladd => "ladd",
            Laload => "laload",
            Land => "land",
            Lastore => "lastore",
            Lcmp => "lcmp",
            Lconst0 => "lconst0",
            Lconst1 => "lconst1",
            Ldc(..) => "ldc",
            LdcW(..) => "ldcw",
            Ldc2W(..) => "ldc2w",
            Ldiv => "ldiv",
            Lload(..) => "lload",
            Lmul => "lmul",
            Lneg => "lneg",
            Lookupswitch(..) => "lookupswitch",
            Lor => "lor",
            Lrem => "lrem",
            Lreturn => "lreturn",
            Lshl => "lshl",
            Lshr => "lshr",
            Lstore(..) => "lstore",
            Lsub => "lsub",
            Lushr => "lushr",
            Lxor => "lxor",
            Monitorenter => "monitorenter",
            Monitorexit => "monitorexit",
            Multianewarray(..) => "multianewarray",
            New(..) => "new",
            Newarray(..) => "newarray",
            Nop => "nop",
            Pop => "pop",
            Pop2 => "pop2",
            Putfield(..) => "putfield",
            Putstatic(..) => "putstatic",
            Ret(..) => "ret",
            Return => "return",
            Saload => "saload",
            Sastore => "sastore",
            Sipush(..) => "sipush",
            Swap => "swap",
            Tableswitch(..) => "tableswitch",
        };
        self.open(name);
        match op {
            Aload(v) | Astore(v) | Dload(v) | Dstore(v) | Fload(v) | Fstore(v) | Iload(v) | Istore(v) | Lload(v) | Lstore(v) | Ret(v) => self.num("var", *v),
            Anewarray(o) | Checkcast(o) | Instanceof(o) => self.obj(o),
            Multianewarray(o, d) => {
                self.obj(o);
                self.num("dimensions", *d);
            }
            Bipush(v) => self.num("imm", *v),
            Sipush(v) => self.num("imm", *v),
            Iinc(v, i) => {
                self.num("var", *v);
                self.num("inc", *i);
            }
            Getfield(m) | Getstatic(m) | Putfield(m) | Putstatic(m) | Invokespecial(m) | Invokestatic(m) | Invokevirtual(m) => self.member_ref(m),
            Invokeinterface(m, c) => {
                self.member_ref(m);
                self.num("count", *c);
            }
            Invokedynamic(d) => {
                self.num("bootstrap", d.attr_index);
                self.name_and_type(&d.name_and_type);
            }
            Goto(j) | Jsr(j) | Ifeq(j) | Ifge(j) | Ifgt(j) | Ifle(j) | Iflt(j) | Ifne(j) | Ifnonnull(j) | Ifnull(j) | IfAcmpeq(j) | IfAcmpne(j) | IfIcmpeq(j) | IfIcmpge(j) | IfIcmpgt(j) | IfIcmple(j)
            | IfIcmplt(j) | IfIcmpne(j) => self.num("jump", *j),
            Ldc(l) | LdcW(l) | Ldc2W(l) => self.loadable(l),
            New(c) => self.text("class", c),
            Newarray(t) => self.mark(match t {
                PrimitiveArrayType::Boolean => "boolean",
                PrimitiveArrayType::Char => "char",
                PrimitiveArrayType::Float => "float",
                PrimitiveArrayType::Double => "double",
                PrimitiveArrayType::Byte => "byte",
                PrimitiveArrayType::Short => "short",
                PrimitiveArrayType::Int => "int",
                PrimitiveArrayType::Long => "long",
            }),
            Lookupswitch(t) => {
                self.num("jump", t.default);
                for (m, j) in &t.match_offsets {
                    self.num("match", *m);
                    self.num("jump", *j);
                }
            }
            Tableswitch(t) => {
                self.num("jump", t.default);
                self.num("low", t.low);
                self.num("high", t.high);
                for j in &t.jumps {
                    self.num("jump", *j);
                }
            }
            _ => (),
        }
        self.close();
    }
}
