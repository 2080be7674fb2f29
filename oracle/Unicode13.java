// Dumps, from the JDK 17 class library (Unicode 13.0), the values used as oracle.
public class Unicode13 {
    static String hex(String s) {
        StringBuilder b = new StringBuilder();
        s.codePoints().forEach(c -> b.append(b.length() > 0 ? " " : "").append(Integer.toHexString(c)));
        return b.toString();
    }
    public static void main(String[] a) throws Exception {
        java.io.PrintStream o = new java.io.PrintStream(new java.io.BufferedOutputStream(System.out, 1 << 20), false, "UTF-8");
        for (int c = 0; c < 0x110000; c++) {
            String s = new String(Character.toChars(c));
            boolean sur = c >= 0xd800 && c < 0xe000;
            String U = sur ? s : s.toUpperCase(java.util.Locale.ROOT), L = sur ? s : s.toLowerCase(java.util.Locale.ROOT);
            String name = Character.getName(c);
            o.println(Integer.toHexString(c) + ";" + Character.getType(c) + ";" + Character.getDirectionality(c) + ";"
                + (Character.isMirrored(c) ? 1 : 0) + ";" + Integer.toHexString(Character.toLowerCase(c)) + ";"
                + Integer.toHexString(Character.toUpperCase(c)) + ";" + Integer.toHexString(Character.toTitleCase(c)) + ";"
                + hex(L) + ";" + hex(U) + ";" + (Character.isAlphabetic(c) ? 1 : 0) + ";" + (Character.isIdeographic(c) ? 1 : 0)
                + ";" + Character.UnicodeScript.of(c) + ";" + Character.UnicodeBlock.of(c)
                + ";" + (Character.isDefined(c) ? 1 : 0) + ";" + (Character.isIdentifierIgnorable(c) ? 1 : 0)
                + ";" + (Character.isWhitespace(c) ? 1 : 0) + ";" + (Character.isSpaceChar(c) ? 1 : 0)
                + ";" + (Character.isJavaIdentifierStart(c) ? 1 : 0) + ";" + (Character.isJavaIdentifierPart(c) ? 1 : 0)
                + ";" + (Character.isUnicodeIdentifierStart(c) ? 1 : 0) + ";" + (Character.isUnicodeIdentifierPart(c) ? 1 : 0)
                + ";" + Character.digit(c, 10) + ";" + Character.getNumericValue(c) + ";" + (name == null ? "" : name)
                + ";" + (sur ? "" : hex(java.text.Normalizer.normalize(s, java.text.Normalizer.Form.NFD)))
                + ";" + (sur ? "" : hex(java.text.Normalizer.normalize(s, java.text.Normalizer.Form.NFKD)))
                + ";" + (Character.isISOControl(c) ? 1 : 0) + ";" + (Character.isLetter(c) ? 1 : 0) + ";" + (Character.isLetterOrDigit(c) ? 1 : 0)
                + ";" + (Character.isDigit(c) ? 1 : 0));
        }
        o.flush();
    }
}
