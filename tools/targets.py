NOPOW = ["crypto/cryptonight.cpp"] + ["crypto/pow_hash/" + f for f in
         ("cn_slow_hash_hard_arm.cpp", "cn_slow_hash_hard_intel.cpp", "cn_slow_hash_intel_avx2.cpp", "cn_slow_hash_soft.cpp")]
ENVX = NOPOW + ["crypto/random.c", "Common/DnsTools.cpp"]
NOSOCK = ["Platform/Linux/System/TcpConnection.cpp", "Platform/Linux/System/TcpListener.cpp"]
TARGETS = {
  "chain": dict(src=["chain_main.cpp", "chain.cpp", "mc.cpp", "env.cpp", "fastpow.cpp"], dirs=CORE+SYS, exclude=ENVX),
  "codec": dict(src=["codec_main.cpp", "mc.cpp", "env.cpp", "fastpow.cpp"], dirs=CORE+SYS+["Mnemonics"], exclude=ENVX),
  "net": dict(src=["net_main.cpp", "scripted_tcp.cpp", "mc.cpp", "env.cpp", "fastpow.cpp"], dirs=CORE+SYS+["Mnemonics", "HTTP", "P2p", "Rpc", "CryptoNoteProtocol"], exclude=ENVX+NOSOCK),
  "netasan": dict(src=["net_main.cpp", "scripted_tcp.cpp", "mc.cpp", "env.cpp", "fastpow.cpp"], dirs=CORE+SYS+["Mnemonics", "HTTP", "P2p", "Rpc", "CryptoNoteProtocol"], exclude=ENVX+NOSOCK, flavor="asan"),
  "wallet": dict(src=["wallet_main.cpp", "crashfs.cpp", "wsim.cpp", "chain.cpp", "mc.cpp", "env.cpp", "fastpow.cpp"], dirs=CORE+SYS+WAL, exclude=ENVX),
}
