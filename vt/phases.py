"""Phase names for the workloads."""

# what the documented keyword stands for, written down here from the
# documentation of the keywords, not read from the code under test
TTP = ["p", "P", "Pn", "Pdiff", "PKP", "PKiKP", "PKIKP"]
TTS = ["s", "S", "Sn", "Sdiff", "SKS", "SKIKS"]
TTPP = ["PcP", "pP", "pPdiff", "pPKP", "pPKIKP", "pPKiKP", "sP", "sPdiff",
        "sPKP", "sPKIKP", "sPKiKP"]
TTSP = ["sS", "sSdiff", "sSKS", "sSKIKS", "ScS", "pS", "pSdiff", "pSKS",
        "pSKIKS"]
TTBASIC = ["ScP", "SKP", "SKIKP", "PKKP", "PKIKKIKP", "SKKP", "SKIKKIKP",
           "PP", "PKPPKP", "PKIKPPKIKP"]
TTALL = ["SKiKP", "PcS", "PKS", "PKIKS", "PKKS", "PKIKKIKS", "SKKS",
         "SKIKKIKS", "SKSSKS", "SKIKSSKIKS", "SS", "SP", "PS"]
KEYWORDS = {
    "ttp": TTP, "tts": TTS, "ttp+": TTP + TTPP, "tts+": TTS + TTSP,
    "ttbasic": TTP + TTS + TTPP + TTSP + TTBASIC,
    "ttall": TTP + TTS + TTPP + TTSP + TTBASIC + TTALL}

HEAD = ["Pn", "Sn", "Pdiff", "Sdiff", "pPdiff", "sPdiff", "pSdiff", "sSdiff",
        "PnPn", "SnSn"]
COMMON = [n for n in KEYWORDS["ttall"] if n not in HEAD]
MORE = ("PPP SSS PKKKP PcPPcP PKIIKP PcSPcS SKSP PPS PSP ScSScS pPcP sScS "
        "pPP sSS PKJKP SKJKS PSKS PKPPcP PcPPKP pPcS PKKKKP PKIKPPcP SKJKP "
        "PKJKS PKJJKP PSS SSP PPPP SSSS sSP pPPP PKPPKPPKP SKKKS SKKKKS "
        "SKPPKS PKiKPPKiKP SKiKS pSKP sSKP PcPS ScSP SKIKPPKIKS PKIJKP PKJIKP "
        "Pg Sg").split()
CONVERTED = ("P^410P PvmP Pv410P P410s P410S S^660S S660p Pms p^410P PKP660s "
             "ScS^660S pvmP Smp P^mP P660S S410P P660SP Pv660SP S^410P "
             "PP^410P PPvmP Sv410P P660p S410s SKS410p PKP410s ScS660p "
             "PcP^660P PSv660S ScP660s sP410s p410P p410s S^mS SvmS PmS SmP "
             "pPvmP P^660P s^660S s410p SKP^410P").split()


def random_name(rng, depths=("410", "660", "m"), named=0.3, legs=3,
                upgoing=True):
    """a phase name made from the grammar of legs"""
    out = []
    if upgoing and rng.random() < 0.3:
        out.append(rng.choice("ps"))

    def core():
        body, up = "K", False
        while rng.random() < 0.55 and len(body) < 7:
            r = rng.random()
            if up or r > 0.6:
                body, up = body + "K", False    # reflected below the mantle
            else:
                body += ("IK" if r < 0.3 else "iK" if r < 0.42 else
                         "JK" if r < 0.52 else "IIK")
                up = True
        return body

    n = rng.randint(1, legs)
    for k in range(n):
        w = rng.choice("PS")
        r = rng.random()
        if r < 0.3:
            out.append(w)
        elif r < 0.45:
            out.append(w + "c" + rng.choice("PS"))
        elif r < 1 - named:
            out.append(w + core() + rng.choice("PS"))
        else:
            d = rng.choice(depths)
            r = rng.random()
            if r < 0.25:
                out.append(w + "^" + d + rng.choice("PS"))
            elif r < 0.5:
                out.append(w + "v" + d + rng.choice("PS"))
            elif r < 0.7:
                out.append(w + d + ("P" if w == "S" else "S"))
            elif r < 0.85:
                out.append(w + d + ("p" if w == "S" else "s"))
            else:
                out.append(w + "c" + w + d + ("p" if w == "S" else "s"))
    return "".join(out)


def multiple(rng):
    """a phase whose rays go round the planet, often more than twice"""
    r = rng.random()
    if r < 0.25:
        return rng.choice("PS") + "K" * rng.randint(5, 20) + rng.choice("PS")
    base = rng.choice(["P", "S", "PcP", "ScS", "PKP", "SKS", "PKIKP", "PKIKP",
                       "SKIKS", "PKKP", "PKiKP", "PSKS", "PPS"])
    name = base * rng.randint(3, max(4, 24 // len(base)))
    return rng.choice(["", "", "", "p", "s"]) + name
