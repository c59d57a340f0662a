/* Executes commands read from standard input on the Java binding (C37). */
import whitedb.driver.WhiteDB;
import whitedb.holder.Record;
import whitedb.holder.Query;
import whitedb.util.ArgListEntry;
import java.io.*;
import java.util.*;

public class Jdrv {
    public static class One { public int only; public String toText() { return "" + only; } }
    public static class Four { public int zeta; public int alpha; public int M; public int beta; }
    public static class Seven { public int g; public int f; public int e; public int d; public int c; public int b; public int a; }
    static Class<?>[] kinds = {One.class, Four.class, Seven.class};
    static String hex(byte[] b) { StringBuilder s = new StringBuilder("x"); for (byte x : b) s.append(String.format("%02x", x & 255)); return s.toString(); }
    static byte[] unhex(String s) { byte[] b = new byte[s.length() / 2]; for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(s.substring(2 * i + 1, 2 * i + 3), 16); return b; }
    static String str(String s) { byte[] b = unhex(s); char[] c = new char[b.length / 2]; for (int i = 0; i < c.length; i++) c[i] = (char) ((b[2 * i] & 255) << 8 | b[2 * i + 1] & 255); return new String(c); }
    static String unstr(String s) { byte[] b = new byte[s.length() * 2]; for (int i = 0; i < s.length(); i++) { b[2 * i] = (byte) (s.charAt(i) >> 8); b[2 * i + 1] = (byte) s.charAt(i); } return hex(b); }
    static Record rec(String p) { Record r = new Record(); r.pointer = Long.parseLong(p); return r; }
    static String ptr(Record r) { return r == null ? "null" : "" + r.pointer; }
    static int num(String s) { return Integer.parseInt(s); }

    public static void main(String[] args) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, "US-ASCII"));
        PrintStream out = System.out;
        System.setOut(new PrintStream(new OutputStream() { public void write(int b) {} }));   // the binding prints what it maps
        Map<Integer, WhiteDB> dbs = new HashMap<>(); Map<Integer, Query> qs = new HashMap<>(); int nq = 0;
        for (String line; (line = in.readLine()) != null; ) {
            String[] w = line.split(" "); String r; WhiteDB d = w.length > 1 ? dbs.get(num(w[1])) : null;
            switch (w[0]) {
                case "open": dbs.put(num(w[1]), w.length == 3 ? new WhiteDB(w[2]) : new WhiteDB(w[2], num(w[3]))); r = "ok"; break;
                case "local": dbs.put(num(w[1]), new WhiteDB(num(w[2]), true)); r = "ok"; break;
                case "close": d.close(); dbs.remove(num(w[1])); r = "ok"; break;
                case "drop": r = "" + d.deleteDatabase(w[2]); break;
                case "create": r = ptr(d.createRecord(num(w[2]))); break;
                case "first": r = ptr(d.getFirstRecord()); break;
                case "next": r = ptr(d.getNextRecord(rec(w[2]))); break;
                case "del": r = "" + d.deleteRecord(rec(w[2])); break;
                case "len": r = "" + d.getRecordLength(rec(w[2])); break;
                case "seti": r = "" + d.setRecordIntField(rec(w[2]), num(w[3]), num(w[4])); break;
                case "geti": r = "" + d.getIntFieldValue(rec(w[2]), num(w[3])); break;
                case "sets": r = "" + d.setRecordStringField(rec(w[2]), num(w[3]), w[4].equals("null") ? null : str(w[4])); break;
                case "gets": { String s = d.getStringFieldValue(rec(w[2]), num(w[3])); r = s == null ? "null" : unstr(s); break; }
                case "setb": r = "" + d.setRecordBlobField(rec(w[2]), num(w[3]), w[4].equals("null") ? null : unhex(w[4])); break;
                case "getb": { byte[] b = d.getBlobFieldValue(rec(w[2]), num(w[3])); r = b == null ? "null" : hex(b); break; }
                case "query": {
                    long lim = Long.parseLong(w[3]); Query q;
                    if (w[2].equals("args")) { ArgListEntry[] a = new ArgListEntry[(w.length - 4) / 3]; for (int i = 0; i < a.length; i++) a[i] = new ArgListEntry(num(w[4 + 3 * i]), num(w[5 + 3 * i]), num(w[6 + 3 * i])); q = lim > 0 ? d.makeQuery(a, lim) : d.makeQuery(a); }
                    else q = lim > 0 ? d.makeQuery(rec(w[2]), lim) : d.makeQuery(rec(w[2]));
                    if (q == null) r = "null"; else { qs.put(++nq, q); r = "" + nq; }
                    break;
                }
                case "fetch": r = ptr(d.fetchQuery(qs.get(num(w[2])))); break;
                case "freeq": d.freeQuery(qs.remove(num(w[2]))); r = "ok"; break;
                case "sr": r = "" + d.startRead(); break;
                case "er": r = "" + d.endRead(Long.parseLong(w[2])); break;
                case "sw": r = "" + d.startWrite(); break;
                case "ew": r = "" + d.endWrite(Long.parseLong(w[2])); break;
                case "put": {
                    Class<?> k = kinds[num(w[2])]; Object o = k.getDeclaredConstructor().newInstance();
                    for (int i = 3; i + 1 < w.length; i += 2) k.getField(w[i]).setInt(o, num(w[i + 1]));
                    d.writeObjectToDatabase(o); r = "ok"; break;
                }
                case "get": {
                    Class<?> k = kinds[num(w[2])]; Object o = d.readObjectFromDatabase(k, rec(w[3])); StringBuilder s = new StringBuilder("=");
                    for (int i = 4; i < w.length; i++) s.append(" ").append(k.getField(w[i]).getInt(o)); r = s.toString(); break;
                }
                case "gc": System.gc(); r = "ok"; break;
                default: r = "what?";
            }
            out.println("@" + r); out.flush();
        }
    }
}
