package corpus;
import java.lang.annotation.*;
import java.util.*;
import java.util.function.*;
/** Sealed hierarchy, records, pattern matching, text blocks, switch expressions. */
public sealed interface Shapes<T extends Comparable<? super T>> permits Shapes.Circle, Shapes.Rect, Shapes.Poly {
    T area();
    default String describe(@Deprecated final int depth) { return "shape " + area() + " at " + depth; }
    record Circle<T extends Comparable<? super T>>(T area, @Mark(value = 3, names = {"r", "\u00e9\u0000\ud83d\ude00"}) double radius) implements Shapes<T> {
        public Circle { if (radius < 0) throw new IllegalArgumentException("negative: " + radius); }
        static final long MAX = Long.MIN_VALUE;
        static final double NAN = 0.0 / 0.0;
        static final float TINY = Float.MIN_VALUE;
    }
    record Rect<T extends Comparable<? super T>>(T area, int... sides) implements Shapes<T> {}
    final class Poly implements Shapes<Integer>, Cloneable {
        private final transient int[][][] grid = new int[3][4][];
        volatile @Mark List<@Mark(names = "t") ? extends @Mark Map<String, @Mark int[] @Mark []>> nested;
        protected synchronized native Object nat(long a, double b, Object[] c);
        public Integer area() { synchronized (grid) { return grid.length * 1_000_000 + 70000; } }
        @Override public Poly clone() throws CloneNotSupportedException { return (Poly) super.clone(); }
    }
    enum Kind { ROUND { @Override int f() { return 1; } }, FLAT; int f() { return ordinal() * 40000; } }
    @Retention(RetentionPolicy.RUNTIME) @Target({ElementType.TYPE_USE, ElementType.PARAMETER, ElementType.METHOD, ElementType.FIELD, ElementType.RECORD_COMPONENT, ElementType.TYPE}) @Documented
    @interface Mark {
        int value() default -1; String[] names() default {}; Class<?> type() default void.class; Kind kind() default Kind.FLAT;
        byte b() default 1; char c() default 'c'; short s() default -3; long l() default 1L << 40; float f() default 1.5f; double d() default -0.0; boolean z() default true;
        Retention inner() default @Retention(RetentionPolicy.CLASS);
    }
    static String classify(Object o) {
        if (o instanceof Circle<?> c && c.radius() > 2) return "big " + c;
        return switch (o == null ? "null" : o.getClass().getSimpleName()) {
            case "Aa", "BB" -> "collision";
            case "Circle" -> { String s = """
                text
                  block \t "x"
                """; yield s; }
            default -> String.valueOf(o);
        };
    }
    @Mark(value = 7, kind = Kind.ROUND, type = int[].class, inner = @Retention(RetentionPolicy.SOURCE)) static <E extends Exception & Runnable> void gen(E e, Supplier<? super E>[] a) throws E {
        Function<Integer, Function<Integer, Integer>> add = x -> y -> x + y;
        Supplier<List<String>> make = ArrayList<String>::new;
        IntFunction<int[]> arr = int[]::new;
        Runnable r = (Runnable & java.io.Serializable) () -> System.out.println(add.apply(1).apply(2) + " " + make + arr);
        r.run();
        @Mark Object local = (@Mark Object) new @Mark ArrayList<@Mark String>();
        try (AutoCloseable q = () -> {}; AutoCloseable z = null) { if (local instanceof @Mark List) throw e; }
        catch (@Mark ClassCastException | IllegalStateException x) { throw new RuntimeException(x); }
        catch (Exception x) { for (;;) { if (a.length > 3) continue; break; } }
        finally { assert a != null : "null"; }
    }
}
