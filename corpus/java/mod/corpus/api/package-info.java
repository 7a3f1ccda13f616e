@Deprecated
package corpus.api;
