/** A module. */
@Deprecated(since = "9", forRemoval = true)
open module corpus.mod {
    requires transitive java.logging;
    requires static java.compiler;
    exports corpus.api to java.logging, java.compiler;
    uses java.util.function.Supplier;
    provides java.lang.Runnable with corpus.api.Impl;
}
