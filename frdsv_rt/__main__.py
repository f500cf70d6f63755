from frdsv_rt.harness import main
main()
