id='c03-fused-later-task'; prop='C03'
edits=[('LevelSchedule.cpp','''            if (q >= threadBoundaries[tOfV] && q <= *v) {''','''            if (q >= threadBoundaries[tOfV] && q < threadBoundaries[tOfV + 1]) {''')]
needs='a fused schedule in which a needed GS task shares its thread with a later task that one of the other waits implies'
breaks='a wait of an SpMV task is removed as redundant although only a later task of the same thread is implied by the others'
threads=3
demo=open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__import__('sys').argv[1])),'sched_demo.h')).read()+'''
int main()
{
  omp_set_dynamic(0); omp_set_num_threads(3);
  synk::Barrier::initializeInstance(3, 1);
  return run(true);
}
'''
