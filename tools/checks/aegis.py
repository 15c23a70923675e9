A = "StreamCiphers/AEGIS/"
AEGIS = {"AEGIS/plain": (A + "AEGIS", "plain"), "AEGIS_x86/plain": (A + "AEGIS_x86", "plain"), "AEGIS_x86/x86": (A + "AEGIS_x86", "x86"),
         "AEGIS_ARM/plain": (A + "AEGIS_ARM", "plain"), "AEGIS_ARM/arm": (A + "AEGIS_ARM", "arm")}
