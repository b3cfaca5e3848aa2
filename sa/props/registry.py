from props import conv, gate, safety, kernel, mirror, program, reading, montecarlo, binding, rng


def seq(*fs):
    def f(ck):
        rule = []
        for g in fs: g(ck); rule.append(ck.rule)
        ck.rule = '; '.join(rule)
    return f


CHECKS = {'C01': gate.gate, 'C02': safety.memory, 'C03': safety.completes, 'C05': safety.initialised, 'C06': safety.ownership, 'C12': conv.convolution, 'C13': conv.poisson,
          'C14': kernel.two_sided, 'C15': seq(lambda ck: mirror.single(ck, 'ecdf1-new'), kernel.block), 'C16': seq(lambda ck: mirror.single(ck, 'ecdf1-mns2016'), kernel.polynomial), 'C11': mirror.both, 'C07': program.result, 'C08': program.errors, 'C09': reading.reading, 'C10': montecarlo.simulation, 'C17': binding.binding, 'C18': rng.numbers}
