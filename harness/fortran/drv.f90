! Replays a history of calls through the Fortran interface.
module helper
  use iso_c_binding
  implicit none
  interface
    integer(C_INT) function h_next(x, k) bind(C, name="h_next")
      import; integer(C_INT), intent(out) :: x(*), k(*)
    end function
    subroutine h_variant(v, n, c, al, co) bind(C, name="h_variant")
      import; integer(C_INT), value :: v, n; real(C_DOUBLE), intent(out) :: c(*), al(*), co(*)
    end subroutine
    subroutine h_charges(n, q, x, y, z) bind(C, name="h_charges")
      import; integer(C_INT), value :: n; real(C_DOUBLE), intent(out) :: q(*), x(*), y(*), z(*)
    end subroutine
    subroutine h_begin() bind(C, name="h_begin")
    end subroutine
    subroutine h_result(s, p, r, o, computes) bind(C, name="h_result")
      import; type(C_PTR), value :: s, p; integer(C_INT), value :: r, computes; real(C_DOUBLE) :: o(*)
    end subroutine
    subroutine h_fill(o) bind(C, name="h_fill")
      import; real(C_DOUBLE) :: o(*)
    end subroutine
    subroutine h_pattern(p, n) bind(C, name="h_pattern")
      import; type(C_PTR), value :: p; integer(C_SIZE_T), value :: n
    end subroutine
    subroutine h_layout() bind(C, name="h_layout")
    end subroutine
    subroutine e_open() bind(C, name="e_open")
    end subroutine
    subroutine e_close() bind(C, name="e_close")
    end subroutine
    subroutine e_int(i) bind(C, name="e_int")
      import; integer(C_INT), value :: i
    end subroutine
    subroutine e_size(i) bind(C, name="e_size")
      import; integer(C_SIZE_T), value :: i
    end subroutine
    subroutine e_dbl(d) bind(C, name="e_dbl")
      import; real(C_DOUBLE), value :: d
    end subroutine
    subroutine e_ptr(p, b, k, own) bind(C, name="e_ptr")
      import; type(C_PTR), value :: p, b; integer(C_INT), value :: k, own
    end subroutine
    subroutine h_add_d(d) bind(C, name="h_add_d")
      import; real(C_DOUBLE), value :: d
    end subroutine
    subroutine h_add_i(i) bind(C, name="h_add_i")
      import; integer(C_INT), value :: i
    end subroutine
    subroutine e_hash() bind(C, name="e_hash")
    end subroutine
  end interface
contains
  integer(C_SIZE_T) function off(base, p)
    type(C_PTR), intent(in) :: base, p
    integer(C_INTPTR_T) :: a, b
    a = transfer(base, a); b = transfer(p, b)
    off = int(b - a, C_SIZE_T)
  end function
  real(C_DOUBLE) function el(p, i)
    type(C_PTR), intent(in) :: p
    integer, intent(in) :: i
    real(C_DOUBLE), pointer :: a(:)
    call c_f_pointer(p, a, [i])
    el = a(i)
  end function
  integer(C_INT) function iel(p, i)
    type(C_PTR), intent(in) :: p
    integer, intent(in) :: i
    integer(C_INT), pointer :: a(:)
    call c_f_pointer(p, a, [i])
    iel = a(i)
  end function
end module

module views
  use iso_c_binding
  use helper
  use SimintFortran
  implicit none
contains
  subroutine layout(s, p)
    type(c_simint_shell), target :: s
    type(c_simint_multi_shellpair), target :: p
    type(C_PTR) :: b
    call h_begin(); call e_open()
    call e_size(int(storage_size(s) / 8, C_SIZE_T))
    b = c_loc(s)
    call e_size(off(b, c_loc(s%am))); call e_size(off(b, c_loc(s%nprim)))
    call e_size(off(b, c_loc(s%x))); call e_size(off(b, c_loc(s%y))); call e_size(off(b, c_loc(s%z)))
    call e_size(off(b, c_loc(s%alpha))); call e_size(off(b, c_loc(s%coef)))
    call e_size(off(b, c_loc(s%memsize))); call e_size(off(b, c_loc(s%ptr)))
    call e_size(int(storage_size(p) / 8, C_SIZE_T))
    b = c_loc(p)
    call e_size(off(b, c_loc(p%am1))); call e_size(off(b, c_loc(p%am2))); call e_size(off(b, c_loc(p%nprim)))
    call e_size(off(b, c_loc(p%nshell12))); call e_size(off(b, c_loc(p%nshell12_clip)))
    call e_size(off(b, c_loc(p%nprim12)))
    call e_size(off(b, c_loc(p%AB_x))); call e_size(off(b, c_loc(p%AB_y))); call e_size(off(b, c_loc(p%AB_z)))
    call e_size(off(b, c_loc(p%x))); call e_size(off(b, c_loc(p%y))); call e_size(off(b, c_loc(p%z)))
    call e_size(off(b, c_loc(p%PA_x))); call e_size(off(b, c_loc(p%PA_y))); call e_size(off(b, c_loc(p%PA_z)))
    call e_size(off(b, c_loc(p%PB_x))); call e_size(off(b, c_loc(p%PB_y))); call e_size(off(b, c_loc(p%PB_z)))
    call e_size(off(b, c_loc(p%alpha)))
#if SIMINT_OSTEI_MAXDER > 0
    call e_size(off(b, c_loc(p%alpha2))); call e_size(off(b, c_loc(p%beta2)))
#endif
    call e_size(off(b, c_loc(p%prefac))); call e_size(off(b, c_loc(p%screen))); call e_size(off(b, c_loc(p%screen_max)))
    call e_size(off(b, c_loc(p%memsize))); call e_size(off(b, c_loc(p%ptr)))
    call e_close()
    call h_layout()
  end subroutine

  subroutine view(sh, pr, kinds)
    type(c_simint_shell), intent(in) :: sh(:)
    type(c_simint_multi_shellpair), intent(in) :: pr(:)
    integer(C_INT), intent(in) :: kinds(:)
    integer :: i, j
    integer(C_INT) :: k
    integer(C_INT), parameter :: z = 0, one = 1
    type(C_PTR) :: b
    call h_begin()
    call e_open()
    do i = 1, size(sh)
      k = kinds(i); b = sh(i)%ptr
      call e_open()
      call e_int(sh(i)%am); call e_int(sh(i)%nprim)
      call e_dbl(sh(i)%x); call e_dbl(sh(i)%y); call e_dbl(sh(i)%z)
      call e_ptr(sh(i)%alpha, b, k, z); call e_ptr(sh(i)%coef, b, k, z)
      call e_size(sh(i)%memsize); call e_ptr(sh(i)%ptr, b, k, one)
      if (k >= 3) then
        do j = 1, sh(i)%nprim
          call h_add_d(el(sh(i)%alpha, j)); call h_add_d(el(sh(i)%coef, j))
        end do
      end if
      call e_hash()
      call e_close()
    end do
    call e_close(); call e_open()
    do i = 1, size(pr)
      k = kinds(size(sh) + i); b = pr(i)%ptr
      call e_open()
      call e_int(pr(i)%am1); call e_int(pr(i)%am2); call e_int(pr(i)%nprim)
      call e_int(pr(i)%nshell12); call e_int(pr(i)%nshell12_clip)
      call e_ptr(pr(i)%nprim12, b, k, z)
      call e_ptr(pr(i)%AB_x, b, k, z); call e_ptr(pr(i)%AB_y, b, k, z); call e_ptr(pr(i)%AB_z, b, k, z)
      call e_ptr(pr(i)%x, b, k, z); call e_ptr(pr(i)%y, b, k, z); call e_ptr(pr(i)%z, b, k, z)
      call e_ptr(pr(i)%PA_x, b, k, z); call e_ptr(pr(i)%PA_y, b, k, z); call e_ptr(pr(i)%PA_z, b, k, z)
      call e_ptr(pr(i)%PB_x, b, k, z); call e_ptr(pr(i)%PB_y, b, k, z); call e_ptr(pr(i)%PB_z, b, k, z)
      call e_ptr(pr(i)%alpha, b, k, z)
#if SIMINT_OSTEI_MAXDER > 0
      call e_ptr(pr(i)%alpha2, b, k, z); call e_ptr(pr(i)%beta2, b, k, z)
#endif
      call e_ptr(pr(i)%prefac, b, k, z); call e_ptr(pr(i)%screen, b, k, z)
      call e_dbl(pr(i)%screen_max); call e_size(pr(i)%memsize); call e_ptr(pr(i)%ptr, b, k, one)
      if (k >= 3) then
        do j = 1, pr(i)%nshell12
          call h_add_i(iel(pr(i)%nprim12, j))
          call h_add_d(el(pr(i)%AB_x, j)); call h_add_d(el(pr(i)%AB_y, j)); call h_add_d(el(pr(i)%AB_z, j))
        end do
        do j = 1, pr(i)%nprim
          call h_add_d(el(pr(i)%x, j)); call h_add_d(el(pr(i)%y, j)); call h_add_d(el(pr(i)%z, j))
          call h_add_d(el(pr(i)%PA_x, j)); call h_add_d(el(pr(i)%PA_y, j)); call h_add_d(el(pr(i)%PA_z, j))
          call h_add_d(el(pr(i)%PB_x, j)); call h_add_d(el(pr(i)%PB_y, j)); call h_add_d(el(pr(i)%PB_z, j))
          call h_add_d(el(pr(i)%alpha, j)); call h_add_d(el(pr(i)%prefac, j))
#if SIMINT_OSTEI_MAXDER > 0
          call h_add_d(el(pr(i)%alpha2, j)); call h_add_d(el(pr(i)%beta2, j))
#endif
          if (c_associated(pr(i)%screen)) call h_add_d(el(pr(i)%screen, j))
        end do
      end if
      call e_hash()
      call e_close()
    end do
    call e_close()
  end subroutine

  ! a destination of its own, known to be empty
  subroutine copyfresh(a, b)
    type(c_simint_shell), intent(in), target :: a
    type(c_simint_shell), intent(inout) :: b
    type(c_simint_shell), target :: t
    t%ptr = C_NULL_PTR
    t%memsize = 0
    call simint_copy_shell(a, t)
    b = t
  end subroutine

  ! the same calls on a local variable that holds the object for the time of the call; each on its own, so that the
  ! compiler may use what it knows of the call
  subroutine l_init_shell(s, x, c, al, co, src)
    type(c_simint_shell), intent(inout) :: s
    integer, intent(in) :: x(:)
    double precision, intent(in) :: c(:), al(:), co(:)
    type(c_simint_shell), intent(in), target :: src
    type(c_simint_shell), target :: t
    t = s
    call simint_initialize_shell(t)
    s = t
  end subroutine
  subroutine l_alloc(s, x, c, al, co, src)
    type(c_simint_shell), intent(inout) :: s
    integer, intent(in) :: x(:)
    double precision, intent(in) :: c(:), al(:), co(:)
    type(c_simint_shell), intent(in), target :: src
    type(c_simint_shell), target :: t
    t = s
    call simint_allocate_shell(x(2), t)
    s = t
  end subroutine
  subroutine l_free(s, x, c, al, co, src)
    type(c_simint_shell), intent(inout) :: s
    integer, intent(in) :: x(:)
    double precision, intent(in) :: c(:), al(:), co(:)
    type(c_simint_shell), intent(in), target :: src
    type(c_simint_shell), target :: t
    t = s
    call simint_free_shell(t)
    s = t
  end subroutine
  subroutine l_copy(s, x, c, al, co, src)
    type(c_simint_shell), intent(inout) :: s
    integer, intent(in) :: x(:)
    double precision, intent(in) :: c(:), al(:), co(:)
    type(c_simint_shell), intent(in), target :: src
    type(c_simint_shell), target :: t
    t = s
    call simint_copy_shell(src, t)
    s = t
  end subroutine
  subroutine l_create(s, x, c, al, co, src)
    type(c_simint_shell), intent(inout) :: s
    integer, intent(in) :: x(:)
    double precision, intent(in) :: c(:), al(:), co(:)
    type(c_simint_shell), intent(in), target :: src
    type(c_simint_shell), target :: t
    t = s
    call simint_create_shell(x(2), x(3), c(1), c(2), c(3), al, co, t)
    s = t
  end subroutine
  subroutine l_zero(s, x, c, al, co, src)
    type(c_simint_shell), intent(inout) :: s
    integer, intent(in) :: x(:)
    double precision, intent(in) :: c(:), al(:), co(:)
    type(c_simint_shell), intent(in), target :: src
    type(c_simint_shell), target :: t
    t = s
    call simint_create_zero_shell(t)
    s = t
  end subroutine
  subroutine l_init_pair(p, x, a, b)
    type(c_simint_multi_shellpair), intent(inout) :: p
    integer, intent(in) :: x(:)
    type(c_simint_shell), intent(in), target, contiguous :: a(:), b(:)
    type(c_simint_multi_shellpair), target :: t
    t = p
    call simint_initialize_multi_shellpair(t)
    p = t
  end subroutine
  subroutine l_free_pair(p, x, a, b)
    type(c_simint_multi_shellpair), intent(inout) :: p
    integer, intent(in) :: x(:)
    type(c_simint_shell), intent(in), target, contiguous :: a(:), b(:)
    type(c_simint_multi_shellpair), target :: t
    t = p
    call simint_free_multi_shellpair(t)
    p = t
  end subroutine
  subroutine l_pair(p, x, a, b)
    type(c_simint_multi_shellpair), intent(inout) :: p
    integer, intent(in) :: x(:)
    type(c_simint_shell), intent(in), target, contiguous :: a(:), b(:)
    type(c_simint_multi_shellpair), target :: t
    t = p
    call simint_create_multi_shellpair(x(2), a, x(4), b, t, x(6))
    p = t
  end subroutine
  subroutine l_pair2(p, x, a, b)
    type(c_simint_multi_shellpair), intent(inout) :: p
    integer, intent(in) :: x(:)
    type(c_simint_shell), intent(in), target, contiguous :: a(:), b(:)
    type(c_simint_multi_shellpair), target :: t
    t = p
    call simint_create_multi_shellpair2(x(2), a, t, x(4))
    p = t
  end subroutine
end module

program drv
  use iso_c_binding
  use helper
  use views
  use SimintFortran
  implicit none
  integer, parameter :: NS = 5, NP = 3, NOUT = 120000
  type(c_simint_shell), target :: sh(NS)
  type(c_simint_multi_shellpair), target :: pr(NP)
  double precision, allocatable, target :: work(:), out(:)
  integer(C_INT) :: xc(16), kinds(NS + NP), op, comp
  integer :: x(16), r, n, d, count = 0
  logical :: loc
  type(c_simint_shell), target :: nosh, none(1)
  double precision :: c(3), al(8), co(8), al2(16), co2(16), q(4), cx(4), cy(4), cz(4), tol

  call simint_init()
  d = SIMINT_OSTEI_MAXDER; n = MAXAM
  allocate(work(simint_eri_worksize(d, n)), out(NOUT))
  call layout(sh(1), pr(1))
  do
    op = h_next(xc, kinds)
    if (op == 0) exit
    x = xc
    if (op == 99) then
      call h_pattern(c_loc(sh), int(NS * storage_size(sh) / 8, C_SIZE_T))
      call h_pattern(c_loc(pr), int(NP * storage_size(pr) / 8, C_SIZE_T))
      cycle
    end if
    r = 0; comp = 0
    count = count + 1; loc = mod(count / 3, 2) == 1
    select case (op)
      case (1)
        if (loc) then; call l_init_shell(sh(x(1)), x, c, al, co, nosh); else; call simint_initialize_shell(sh(x(1))); end if
      case (2); call simint_initialize_shells(x(2), sh(x(1):))
      case (3)
        if (loc) then; call l_alloc(sh(x(1)), x, c, al, co, nosh); else; call simint_allocate_shell(x(2), sh(x(1))); end if
      case (4)
        if (loc) then; call l_free(sh(x(1)), x, c, al, co, nosh); else; call simint_free_shell(sh(x(1))); end if
      case (5); call simint_free_shells(x(2), sh(x(1):))
      case (6); call simint_normalize_shells(x(2), sh(x(1):))
      case (7)
        if (loc) then; call l_copy(sh(x(2)), x, c, al, co, sh(x(1))); else; call simint_copy_shell(sh(x(1)), sh(x(2))); end if
      case (8); call copyfresh(sh(x(1)), sh(x(2)))
      case (9)
        n = x(2)
        call h_variant(xc(4), xc(2), c, al, co)
        if (x(4) == 2) then      ! every second element of larger arrays
          al2(1:2*n:2) = al(1:n); co2(1:2*n:2) = co(1:n)
          al2(2:2*n:2) = -1d0; co2(2:2*n:2) = -2d0
          call simint_create_shell(n, x(3), c(1), c(2), c(3), al2(1:2*n:2), co2(1:2*n:2), sh(x(1)))
        else if (loc) then
          call l_create(sh(x(1)), x, c, al, co, nosh)
        else
          call simint_create_shell(n, x(3), c(1), c(2), c(3), al, co, sh(x(1)))
        end if
      case (10)
        if (loc) then; call l_zero(sh(x(1)), x, c, al, co, nosh); else; call simint_create_zero_shell(sh(x(1))); end if
      case (11)
        if (loc) then; call l_init_pair(pr(x(1)), x, none, none); else; call simint_initialize_multi_shellpair(pr(x(1))); end if
      case (12); call simint_initialize_multi_shellpairs(x(2), pr(x(1):))
      case (13)
        if (loc) then; call l_free_pair(pr(x(1)), x, none, none); else; call simint_free_multi_shellpair(pr(x(1))); end if
      case (14); call simint_free_multi_shellpairs(x(2), pr(x(1):))
      case (15)
        if (loc) then
          call l_pair(pr(x(5)), x, sh(x(1):x(1) + x(7) * (x(2) - 1):x(7)), sh(x(3):x(3) + x(7) * (x(4) - 1):x(7)))
        else
        call simint_create_multi_shellpair(x(2), sh(x(1):x(1) + x(7) * (x(2) - 1):x(7)), &
             x(4), sh(x(3):x(3) + x(7) * (x(4) - 1):x(7)), pr(x(5)), x(6))
        end if
      case (16)
        if (loc) then
          call l_pair2(pr(x(3)), x, sh(x(1):x(1) + x(5) * (2 * x(2) - 1):x(5)), none)
        else
        call simint_create_multi_shellpair2(x(2), sh(x(1):x(1) + x(5) * (2 * x(2) - 1):x(5)), pr(x(3)), x(4))
        end if
      case (17)
        call h_fill(out); comp = 1; tol = x(3) * 1d-3
        r = simint_compute_eri(pr(x(1)), pr(x(2)), tol, work, out)
      case (18)
        call h_fill(out); comp = 1; tol = x(4) * 1d-3
        r = simint_compute_eri_deriv(xc(1), pr(x(2)), pr(x(3)), tol, work, out)
      case (19); r = simint_eri_worksize(x(1), x(2))
      case (20); r = simint_eri_workmem(x(1), x(2))
      case (21); call h_fill(out); comp = 1; r = simint_compute_overlap(sh(x(1)), sh(x(2)), out)
      case (22); call h_fill(out); comp = 1; r = simint_compute_ke(sh(x(1)), sh(x(2)), out)
      case (23)
        call h_charges(xc(1), q, cx, cy, cz); call h_fill(out); comp = 1
        r = simint_compute_potential(x(1), q, cx, cy, cz, sh(x(2)), sh(x(3)), out)
      case (24); call simint_init()
      case (25); call simint_finalize(); call simint_init()
    end select
    call view(sh, pr, kinds)
    call h_result(c_loc(sh), c_loc(pr), int(r, C_INT), out, comp)
  end do
end program
