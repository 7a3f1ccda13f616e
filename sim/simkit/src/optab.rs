//! The instruction set, transcribed from chapter 6 of the JVM specification.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt {
    Undefined,
    /// no operand
    Plain,
    /// signed 8-bit and 16-bit immediates
    Imm8,
    Imm16,
    /// constant pool index of a loadable constant, 1 or 2 bytes
    Load8,
    Load16,
    /// local variable index in 1 byte, or fixed by the opcode
    Var8,
    Var(u8),
    Inc,
    Jump16,
    Jump32,
    Table,
    Lookup,
    Field,
    Method,
    AnyMethod,
    IfaceMethod,
    Indy,
    NewObj,
    NewArr,
    Type,
    Wide,
    MultiArr,
}
use Fmt::*;

pub struct Op {
    pub name: &'static str,
    pub fmt: Fmt,
}

const fn op(name: &'static str, fmt: Fmt) -> Op {
    Op { name, fmt }
}

/// Names are given without underscores; the `_<n>` and `_w` forms carry the name of the general form,
/// since that is how an instruction is identified once decoded.
pub static OPS: [Op; 256] = {
    const U: Op = op("?", Undefined);
    let mut t = [U; 256];
    let plain: [(u8, &str); 110] = [
        (0x00, "nop"), (0x01, "aconstnull"), (0x02, "iconstm1"), (0x03, "iconst0"), (0x04, "iconst1"),
        (0x05, "iconst2"), (0x06, "iconst3"), (0x07, "iconst4"), (0x08, "iconst5"), (0x09, "lconst0"),
        (0x0a, "lconst1"), (0x0b, "fconst0"), (0x0c, "fconst1"), (0x0d, "fconst2"), (0x0e, "dconst0"),
        (0x0f, "dconst1"),
        (0x2e, "iaload"), (0x2f, "laload"), (0x30, "faload"), (0x31, "daload"), (0x32, "aaload"),
        (0x33, "baload"), (0x34, "caload"), (0x35, "saload"),
        (0x4f, "iastore"), (0x50, "lastore"), (0x51, "fastore"), (0x52, "dastore"), (0x53, "aastore"),
        (0x54, "bastore"), (0x55, "castore"), (0x56, "sastore"), (0x57, "pop"), (0x58, "pop2"),
        (0x59, "dup"), (0x5a, "dupx1"), (0x5b, "dupx2"), (0x5c, "dup2"), (0x5d, "dup2x1"),
        (0x5e, "dup2x2"), (0x5f, "swap"), (0x60, "iadd"), (0x61, "ladd"), (0x62, "fadd"), (0x63, "dadd"),
        (0x64, "isub"), (0x65, "lsub"), (0x66, "fsub"), (0x67, "dsub"), (0x68, "imul"), (0x69, "lmul"),
        (0x6a, "fmul"), (0x6b, "dmul"), (0x6c, "idiv"), (0x6d, "ldiv"), (0x6e, "fdiv"), (0x6f, "ddiv"),
        (0x70, "irem"), (0x71, "lrem"), (0x72, "frem"), (0x73, "drem"), (0x74, "ineg"), (0x75, "lneg"),
        (0x76, "fneg"), (0x77, "dneg"), (0x78, "ishl"), (0x79, "lshl"), (0x7a, "ishr"), (0x7b, "lshr"),
        (0x7c, "iushr"), (0x7d, "lushr"), (0x7e, "iand"), (0x7f, "land"), (0x80, "ior"), (0x81, "lor"),
        (0x82, "ixor"), (0x83, "lxor"),
        (0x85, "i2l"), (0x86, "i2f"), (0x87, "i2d"), (0x88, "l2i"), (0x89, "l2f"), (0x8a, "l2d"),
        (0x8b, "f2i"), (0x8c, "f2l"), (0x8d, "f2d"), (0x8e, "d2i"), (0x8f, "d2l"), (0x90, "d2f"),
        (0x91, "i2b"), (0x92, "i2c"), (0x93, "i2s"), (0x94, "lcmp"), (0x95, "fcmpl"), (0x96, "fcmpg"),
        (0x97, "dcmpl"), (0x98, "dcmpg"),
        (0xac, "ireturn"), (0xad, "lreturn"), (0xae, "freturn"), (0xaf, "dreturn"), (0xb0, "areturn"),
        (0xb1, "return"), (0xbe, "arraylength"), (0xbf, "athrow"), (0xc2, "monitorenter"),
        (0xc3, "monitorexit"), (0xca, "breakpoint"), (0xfe, "impdep1"), (0xff, "impdep2"),
    ];
    let mut i = 0;
    while i < plain.len() {
        t[plain[i].0 as usize] = op(plain[i].1, Plain);
        i += 1;
    }
    t[0x10] = op("bipush", Imm8);
    t[0x11] = op("sipush", Imm16);
    t[0x12] = op("ldc", Load8);
    t[0x13] = op("ldcw", Load16);
    t[0x14] = op("ldc2w", Load16);
    let loads = ["iload", "lload", "fload", "dload", "aload"];
    let stores = ["istore", "lstore", "fstore", "dstore", "astore"];
    let mut k = 0;
    while k < 5 {
        t[0x15 + k] = op(loads[k], Var8);
        t[0x36 + k] = op(stores[k], Var8);
        let mut n = 0;
        while n < 4 {
            t[0x1a + 4 * k + n] = op(loads[k], Var(n as u8));
            t[0x3b + 4 * k + n] = op(stores[k], Var(n as u8));
            n += 1;
        }
        k += 1;
    }
    t[0x84] = op("iinc", Inc);
    let jumps = [
        "ifeq", "ifne", "iflt", "ifge", "ifgt", "ifle", "ificmpeq", "ificmpne", "ificmplt", "ificmpge",
        "ificmpgt", "ificmple", "ifacmpeq", "ifacmpne", "goto", "jsr",
    ];
    let mut k = 0;
    while k < jumps.len() {
        t[0x99 + k] = op(jumps[k], Jump16);
        k += 1;
    }
    t[0xa9] = op("ret", Var8);
    t[0xaa] = op("tableswitch", Table);
    t[0xab] = op("lookupswitch", Lookup);
    t[0xb2] = op("getstatic", Field);
    t[0xb3] = op("putstatic", Field);
    t[0xb4] = op("getfield", Field);
    t[0xb5] = op("putfield", Field);
    t[0xb6] = op("invokevirtual", Method);
    t[0xb7] = op("invokespecial", AnyMethod);
    t[0xb8] = op("invokestatic", AnyMethod);
    t[0xb9] = op("invokeinterface", IfaceMethod);
    t[0xba] = op("invokedynamic", Indy);
    t[0xbb] = op("new", NewObj);
    t[0xbc] = op("newarray", NewArr);
    t[0xbd] = op("anewarray", Type);
    t[0xc0] = op("checkcast", Type);
    t[0xc1] = op("instanceof", Type);
    t[0xc4] = op("wide", Wide);
    t[0xc5] = op("multianewarray", MultiArr);
    t[0xc6] = op("ifnull", Jump16);
    t[0xc7] = op("ifnonnull", Jump16);
    t[0xc8] = op("goto", Jump32);
    t[0xc9] = op("jsr", Jump32);
    t
};

pub const NEWARRAY: [(u8, &str); 8] = [
    (4, "boolean"), (5, "char"), (6, "float"), (7, "double"), (8, "byte"), (9, "short"), (10, "int"), (11, "long"),
];

pub fn widenable(opcode: u8) -> bool {
    matches!(opcode, 0x15..=0x19 | 0x36..=0x3a | 0x84 | 0xa9)
}
