"""P20 processes, ready lists and semaphores (interp.c, prims.def)."""
from csym import prep, cbmc
import vplib

def unit(s, thorough):
    C = []
    M = 'interp.c:remove_process_from_list interp.c:add_first_link interp.c:add_last_link interp.c:remove_first_link interp.c:sleep_process interp.c:activate_process interp.c:is_process_ready interp.c:get_active_process '
    R = M + 'interp.c:resume_process interp.c:is_process_terminating '
    N = M + 'interp.c:highest_priority_process interp.c:next_scheduled_process '
    def c(fn, enc, np=4, npri=3, u=6, thor=False, timeout=400, what=None, **d):
        if thor and not thorough: return
        b = what or 'every state of %d processes at %d priorities, ready, suspended or waiting at 2 semaphores, terminated or not' % (np, npri)
        k = np if fn != 'h_notifyall' else np + 1
        C.append(cbmc.Case(fn, b, unwind=max(u, np + 2), timeout=timeout, defs=('-DNP=%d' % np, '-DNPRI=%d' % npri) + tuple('-D%s=%s' % x for x in d.items()), mem_gb=6,
                           unwindset=('_gst_sync_signal.0:%d' % k, 'm_signal.0:%d' % k, 'remove_process_from_list.0:%d' % (np - 1)), encodes=enc.split()))
    SG = 'interp.c:_gst_sync_signal ' + R
    W = 'interp.c:sync_wait_process interp.c:_gst_sync_wait ' + N
    c('h_notifyall', 'prims.def:VMpr_Semaphore_notifyAll ' + SG, np=3, npri=2)
    c('h_waitafter', 'prims.def:VMpr_Semaphore_waitAfterSignalling ' + SG + W)
    c('h_signal', 'prims.def:VMpr_Semaphore_signalNotify ' + SG)
    c('h_notify', 'prims.def:VMpr_Semaphore_signalNotify ' + SG)
    c('h_wait', 'prims.def:VMpr_Semaphore_wait ' + W)
    c('h_lock', 'prims.def:VMpr_Semaphore_lock')
    c('h_resume', 'prims.def:VMpr_Process_resume ' + R)
    c('h_suspend', 'prims.def:VMpr_Process_suspend interp.c:suspend_process ' + N)
    c('h_terminate', 'interp.c:_gst_terminate_process interp.c:suspend_process ' + N)
    c('h_yield', 'prims.def:VMpr_Process_yield interp.c:active_process_yield ' + N)
    c('h_would', 'interp.c:would_reschedule_process')
    for f, x in (('signal', SG), ('resume', R), ('suspend', N), ('yield', N), ('wait', W), ('waitafter', SG + W)):
        c('h_' + f, x, np=5, thor=True, timeout=900)
    c('h_notifyall', 'prims.def:VMpr_Semaphore_notifyAll ' + SG, np=4, thor=True, timeout=900)
    A = 'interp.c:empty_async_queue interp.c:_gst_have_pending_async_calls interp.c:_gst_async_call_internal interp.c:_gst_async_call'
    for f, w in (('irq', 'a handler queues its request; up to 2 other handlers interrupt it before any of its atomic operations'), ('drain', 'the queue is emptied; up to 2 handlers interrupt that before any of its atomic operations'),
                 ('order', 'every sequence of up to 3 requests'), ('twice', 'every sequence of up to 3 requests by 3 handlers')):
        c('h_async_' + f, A, np=2, npri=1, u=5, NA=3, what=w)
    c('h_async_signal', A + ' interp.c:_gst_async_signal interp.c:_gst_do_async_signal ' + SG, np=3, npri=2, NA=2)
    return cbmc.Unit(s, 'sched.c', C)

def run(ctx):
    s = prep.Scratch()
    ctx.notes += s.notes
    ctx.assumptions += ['a lowest-priority process is always ready when the running one gives up the processor (the idle process)', 'the switch itself (saving and restoring contexts at the next sequence point) is outside', 'atomic operations are sequentially consistent; interrupts happen between them']
    vplib.run_units(ctx, [unit(s, ctx.thorough)])
