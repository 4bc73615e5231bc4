import os
import tempfile


class MPITag(object):
    ONE = 1
    TWO = 2


def skip_on_root(vm, x):
    if vm.rank == 0:  # BAD
        vm.barrier()
    return x


def skip_by_flag(vm, x):
    flag = None
    if vm.rank == 0:
        flag = True
    if flag:  # BAD
        x = vm.gather(x)
    vm.barrier()


def early_return(vm, x):
    if x.is_empty:  # BAD
        return None
    return vm.bcast(x)


def both_arms(vm, x):
    if vm.rank == 0:
        x = vm.bcast(x)
    else:
        x = vm.bcast(None)
    return x


def uniform_flag(vm, x):
    flag = None
    if vm.rank == 0:
        flag = True
    flag = vm.bcast(flag)
    if flag:
        vm.barrier()


def scoped(vm, x):
    with vm.scoped_by_emptyable('name', x):
        if not vm.is_null:
            if not x.is_empty:
                vm.barrier()
            y = vm.gather(1)
            if vm.rank == 0:
                print(y[0])


def scoped_skips_outer(vm, x):
    with vm.scoped('name', [0]):
        if vm.is_null:  # BAD
            return
    vm.barrier()


def helper(vm):
    vm.barrier()


def through_helper(vm, n):
    for r in vm.ranks:
        if r == vm.rank:  # BAD
            helper(vm)


def inline(vm, x):
    return vm.rank == 0 and vm.bcast(x)  # BAD


def gathered_everywhere(vm, x):
    y = vm.gather(x)
    return y[0]  # BAD


def gathered_then_bcast(vm, x):
    y = vm.gather(x)
    y = vm.bcast(y)
    return y[0]


def computed_on_root(vm, x):
    p = None
    if vm.rank == 0:
        p = os.path.join(x, 'a')
    return open(p)  # BAD


def wrong_root(vm, x, root=0):
    y = vm.gather(x)
    if vm.rank == root:
        return y[0]  # BAD


def wrong_bcast(vm, x, root=0):
    y = None
    if vm.rank == root:
        y = x + 1
    y = vm.bcast(y)  # BAD
    return y


def make_dir(vm, path):
    if vm.rank == 0:
        os.mkdir(path)  # BAD
    return path


def make_dir_ok(vm, path):
    if vm.rank == 0:
        os.mkdir(path)
    vm.barrier()
    return path


def turns(vm, driver_scope, path):
    for r in vm.ranks:
        if vm.rank == r:
            with driver_scope(path, mode='a') as f:  # BAD
                f.write(1)
    vm.barrier()


def turns_ok(vm, driver_scope, path):
    for r in vm.ranks:
        if vm.rank == r:
            with driver_scope(path, mode='a') as f:
                f.write(1)
        vm.barrier()


def send_wrong(vm, x):
    if vm.rank == 0:
        vm.comm.send(x, dest=1, tag=MPITag.ONE)  # BAD
    else:
        x = vm.comm.recv(source=0, tag=MPITag.TWO)  # BAD
    return x


def outside_of_scope(vm, x):
    with vm.scoped('part', [0]):
        if not vm.is_null:
            x.write()
        vm.barrier()  # BAD


def scope_root(vm, x):
    with vm.scoped_by_emptyable('part', x):
        if not vm.is_null:
            box = x.box()
        else:
            box = None
    return vm.bcast(box)  # BAD


def scope_root_ok(vm, x):
    live = vm.get_live_ranks_from_object(x)
    with vm.scoped_by_emptyable('part', x):
        if not vm.is_null:
            box = x.box()
        else:
            box = None
    return vm.bcast(box, root=live[0])


def wrong_source(vm, x):
    if vm.rank == 0:
        for r in vm.ranks:
            if r != vm.rank:
                vm.comm.send(x, dest=r)
    else:
        x = vm.comm.recv(source=vm.rank - 1)  # BAD
    return x


def parts(vm, splits):
    if vm.rank == 0:
        todo = splits(3)
    else:
        todo = [None] * 3
    for t in todo:
        if t is None:  # BAD
            continue
        vm.bcast(t)


def of_this_rank(vm, bounds):
    def cut(b):
        return b or None
    part = cut(x_of(vm).bounds_local)
    if part is None:  # BAD
        return None
    return vm.gather(part)


def x_of(vm):
    return vm.x


def elements_below_mask(vm, var):
    mask, found = var.get_mask(), []
    for i in range(3):
        if not mask[i]:
            found.append(i)
    if found:  # BAD
        vm.barrier()
    return found


def empty_part(vm, var):
    if var.size == 0:  # BAD
        return None
    return vm.gather(1)
