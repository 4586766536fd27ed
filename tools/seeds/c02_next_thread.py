id='c02-next-thread-successor'; prop='C02'
edits=[('LevelSchedule.cpp','''        if (j < threadBoundaries[t + 1] - 1) {
          int idx''','''        if (j < ntasks - 1) {
          int idx''')]
needs='transitive reduction, the last task of a thread having a successor that also depends on the first task of the next thread'
breaks='the first task of the next thread is taken for the successor in program order of the last task of a thread, so a wait that is needed is removed'
threads=3
demo=open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__import__('sys').argv[1])),'sched_demo.h')).read()+'''
int main()
{
  omp_set_dynamic(0); omp_set_num_threads(3);
  synk::Barrier::initializeInstance(3, 1);
  return run(false);
}
'''
