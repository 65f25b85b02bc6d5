package simnative;

/** The native side of the harness; lives in the same library as the binding. */
public final class Gen {
  /** A JPEG file; the first byte is 1 if the encoder may refuse it. */
  public static native byte[] jpeg(long seed, int maxClass);

  /** What the codec gives when it is called directly, null if it refuses. */
  public static native byte[] reference(boolean encode, byte[] data);

  public static void load(String library) {
    System.load(library);
  }
}
