package corpus.api;
public class Impl implements Runnable { public void run() {} }
