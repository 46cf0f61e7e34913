extern "C" char __data_start, _end;
extern "C" char __start_simquiet, __stop_simquiet;
int sim_main(int argc, char** argv, void* glo, void* ghi, void* qlo, void* qhi);
__attribute__((section("simquiet"), used)) static long anchor = 1;
int main(int argc, char** argv) {
    return sim_main(argc, argv, &__data_start, &_end, &__start_simquiet, &__stop_simquiet);
}
