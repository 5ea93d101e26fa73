package minisign;

/** Known answers, so that the oracle is not believed on its word. */
public final class SelfTest {
    static void eq(String what, String a, String b) {
        if (!a.equals(b)) {
            System.out.println("ORACLE-SELFTEST-FAILED " + what + " " + a + " " + b);
            System.exit(2);
        }
    }

    static byte[] a(String s) {
        return s.getBytes(java.nio.charset.StandardCharsets.UTF_8);
    }

    public static void main(String[] x) {
        eq("blake2b", Crypto.hex(Crypto.blake2b(64, a("abc"))), // RFC 7693, appendix A
            "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923");
        // RFC 8032, 7.1 tests 1 and 3
        byte[] pk = Crypto.hex("d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a");
        eq("edPub", Crypto.hex(Crypto.edPub(Crypto.hex("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60"))), Crypto.hex(pk));
        byte[] sg = Crypto.hex("e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b");
        eq("edVerify", "" + Crypto.edVerify(pk, a(""), sg), "true");
        eq("edVerify", "" + Crypto.edVerify(pk, a("x"), sg), "false");
        sg[3] ^= 1;
        eq("edVerify", "" + Crypto.edVerify(pk, a(""), sg), "false");
        byte[] pk3 = Crypto.hex("fc51cd8e6218a1a38da47ed00230f0580816ed13ba3303ac5deb911548908025");
        byte[] sg3 = Crypto.hex("6291d657deec24024827e69c3abe01a30ce548a284743a445e3680d7db5ac3ac18ff9b538d16f290ae67f760984dc6594a7c15e9716ed28dc027beceea1ec40a");
        eq("edVerify", "" + Crypto.edVerify(pk3, Crypto.hex("af82"), sg3), "true");
        eq("edVerify", "" + Crypto.edVerify(new byte[32], a(""), sg3), "false");
        // RFC 7914, 12
        eq("scrypt", Crypto.hex(Crypto.scrypt(a(""), a(""), 4, 1, 1, 64)),
            "77d6576238657b203b19ca42c18a0497f16b4844e3074ae8dfdffa3fede21442fcd0069ded0948f8326a753a0fc81f17e8d3e0fb2e0d3628cf35e20c38d18906");
        eq("scrypt", Crypto.hex(Crypto.scrypt(a("pleaseletmein"), a("SodiumChloride"), 14, 8, 1, 64)),
            "7023bdcb3afd7348461c06cd81fd38ebfda8fbba904f8e3ea9b543f6545da1f2d5432955613f0fcf62d49705242a9af9e61e85dc0d651e40dfcf017b45575887");
        eq("data", Crypto.hex(Crypto.expand("h6162+z7:2+p1:9^0:ff")).substring(0, 8), "9e620707");
        // data in pieces: around blocks and pieces, and after a kept state
        for (int n : new int[] {0, 1, 127, 128, 129, 65535, 65536, 65537, 200000})
            eq("sparse " + n, Crypto.hex(Crypto.Sparse.hash(new Crypto.Sparse("Z7:" + n))), Crypto.hex(Crypto.blake2b(64, Crypto.expand("z7:" + n))));
        eq("sparse", Crypto.hex(Crypto.Sparse.hash(new Crypto.Sparse("Z7:70000^65536:01^69999:80"))),
            Crypto.hex(Crypto.blake2b(64, Crypto.expand("z7:70000^65536:01^69999:80"))));
        byte[] d = new byte[(1 << 28) + 5];
        for (int i = 0; i < 2; i++) {
            d[1 << 28] ^= 1;
            eq("sparse, kept", Crypto.hex(Crypto.Sparse.hash(new Crypto.Sparse("Z0:268435461" + (i == 0 ? "^268435456:01" : "")))), Crypto.hex(Crypto.blake2b(64, d)));
        }
        System.out.println("ORACLE-SELFTEST-OK");
    }
}
