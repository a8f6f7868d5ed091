"""Behaviours of spec/Gauss.tla, shared by C01 and C02."""
import math

INV = ["TypeOK", "Valid", "NonNegative", "Invariance", "ZeroIffIndependent", "NoiseLowers", "Emit"]


def rows(ctx, q, offset=0):
    def sim(dims, coefs, lat, bound, scales, num, off):
        return lambda: ctx.tlc(
            "Gauss",
            dict(DimPairs=dims, Coefs=coefs, Latents=lat, Bound=bound, Scales=scales, MaxSteps=6),
            spec="NSpec",
            invariants=INV,
            simulate=num,
            depth=80,
            seed=ctx.seed * 1000 + off + offset,
            label=f"dims {dims[2:]}",
        )

    jobs = [
        sim("=={<<1,1>>,<<2,1>>,<<1,3>>,<<2,2>>,<<3,1>>}", "==-2..2", 2, 80, "=={-2,-1,3}", 500 * q, 1),
        sim("=={<<1,1>>,<<1,2>>,<<2,2>>}", "==-4..4", 3, 120, "=={-2,-1,3}", 300 * q, 2),
        sim("=={<<3,2>>,<<2,3>>,<<4,1>>,<<1,4>>}", "==-1..1", 3, 20, "=={-2,-1}", 150 * q, 3),
        sim("=={<<3,3>>,<<2,4>>,<<5,1>>}", "==-1..1", 2, 14, "=={-2,-1}", 60 * q, 4),
    ]
    jobs.append(
        lambda: ctx.tlc(
            "Gauss",
            dict(DimPairs="=={<<1,1>>}", Coefs="==-2..2" if not ctx.thorough else "==-3..3", Latents=2,
                 Bound=80, Scales="=={1}", MaxSteps=1),
            spec="MSpec",
            invariants=["MEmit"],
            label="every 2x2 matrix",
        )
    )
    out = []
    for r in ctx.parallel(*jobs):
        out += r.rows
    return out


def half_log(ratio):
    return 0.5 * (math.log(ratio[0]) - math.log(ratio[1]))
