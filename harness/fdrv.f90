! Fortran glue of the harness: forwards to the library's own Fortran modules

subroutine fd_fft3d_create(comm,prec,ptr) bind(c)
  use iso_c_binding
  use fft3d_wrap
  integer(c_int), value :: comm,prec
  type(c_ptr) :: ptr
  call fft3d_create(comm,prec,ptr)
end subroutine
subroutine fd_fft3d_destroy(ptr) bind(c)
  use iso_c_binding
  use fft3d_wrap
  type(c_ptr), value :: ptr
  call fft3d_destroy(ptr)
end subroutine
subroutine fd_fft3d_set(ptr,keyword,val) bind(c)
  use iso_c_binding
  use fft3d_wrap
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  integer(c_int), value :: val
  call fft3d_set(ptr,keyword,val)
end subroutine
function fd_fft3d_get_int(ptr,keyword) bind(c)
  use iso_c_binding
  use fft3d_wrap
  integer(c_int) :: fd_fft3d_get_int
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  fd_fft3d_get_int = fft3d_get_int(ptr,keyword)
end function
function fd_fft3d_get_double(ptr,keyword) bind(c)
  use iso_c_binding
  use fft3d_wrap
  real(c_double) :: fd_fft3d_get_double
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  fd_fft3d_get_double = fft3d_get_double(ptr,keyword)
end function
function fd_fft3d_get_int64(ptr,keyword) bind(c)
  use iso_c_binding
  use fft3d_wrap
  integer(c_int64_t) :: fd_fft3d_get_int64
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  fd_fft3d_get_int64 = fft3d_get_int64(ptr,keyword)
end function
function fd_fft3d_get_string(ptr,keyword,len) bind(c)
  use iso_c_binding
  use fft3d_wrap
  type(c_ptr) :: fd_fft3d_get_string
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  integer(c_int) :: len
  fd_fft3d_get_string = fft3d_get_string(ptr,keyword,len)
end function
function fd_fft3d_get_int_vector(ptr,keyword,len) bind(c)
  use iso_c_binding
  use fft3d_wrap
  type(c_ptr) :: fd_fft3d_get_int_vector
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  integer(c_int) :: len
  fd_fft3d_get_int_vector = fft3d_get_int_vector(ptr,keyword,len)
end function
function fd_fft3d_get_double_vector(ptr,keyword,len) bind(c)
  use iso_c_binding
  use fft3d_wrap
  type(c_ptr) :: fd_fft3d_get_double_vector
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  integer(c_int) :: len
  fd_fft3d_get_double_vector = fft3d_get_double_vector(ptr,keyword,len)
end function
subroutine fd_fft3d_setup(ptr,box,n,permute,fftsize,sendsize,recvsize) bind(c)
  use iso_c_binding
  use fft3d_wrap
  type(c_ptr), value :: ptr
  integer(c_int) :: box(*),n(*)
  integer(c_int), value :: permute
  integer(c_int) :: fftsize,sendsize,recvsize
  call fft3d_setup(ptr,n(1),n(2),n(3), &
    box(1)+1,box(2)+1,box(3)+1,box(4)+1,box(5)+1,box(6)+1, &
    box(7)+1,box(8)+1,box(9)+1,box(10)+1,box(11)+1,box(12)+1, &
    permute,fftsize,sendsize,recvsize)
end subroutine
subroutine fd_fft3d_tune(ptr,box,n,permute,fftsize,sendsize,recvsize, &
    flag,niter,tmax,tflag) bind(c)
  use iso_c_binding
  use fft3d_wrap
  type(c_ptr), value :: ptr
  integer(c_int) :: box(*),n(*)
  integer(c_int), value :: permute,flag,niter,tflag
  real(c_double), value :: tmax
  integer(c_int) :: fftsize,sendsize,recvsize
  call fft3d_tune(ptr,n(1),n(2),n(3), &
    box(1)+1,box(2)+1,box(3)+1,box(4)+1,box(5)+1,box(6)+1, &
    box(7)+1,box(8)+1,box(9)+1,box(10)+1,box(11)+1,box(12)+1, &
    permute,fftsize,sendsize,recvsize,flag,niter,tmax,tflag)
end subroutine
subroutine fd_fft3d_setup_memory(ptr,a,b) bind(c)
  use iso_c_binding
  use fft3d_wrap
  type(c_ptr), value :: ptr,a,b
  call fft3d_setup_memory(ptr,a,b)
end subroutine
subroutine fd_fft3d_compute(ptr,a,b,flag) bind(c)
  use iso_c_binding
  use fft3d_wrap
  type(c_ptr), value :: ptr,a,b
  integer(c_int), value :: flag
  call fft3d_compute(ptr,a,b,flag)
end subroutine
subroutine fd_fft3d_only_1d_ffts(ptr,a,flag) bind(c)
  use iso_c_binding
  use fft3d_wrap
  type(c_ptr), value :: ptr,a
  integer(c_int), value :: flag
  call fft3d_only_1d_ffts(ptr,a,flag)
end subroutine
subroutine fd_fft3d_only_remaps(ptr,a,b,flag) bind(c)
  use iso_c_binding
  use fft3d_wrap
  type(c_ptr), value :: ptr,a,b
  integer(c_int), value :: flag
  call fft3d_only_remaps(ptr,a,b,flag)
end subroutine
subroutine fd_fft3d_only_one_remap(ptr,a,b,flag,which) bind(c)
  use iso_c_binding
  use fft3d_wrap
  type(c_ptr), value :: ptr,a,b
  integer(c_int), value :: flag,which
  call fft3d_only_one_remap(ptr,a,b,flag,which)
end subroutine


subroutine fd_fft2d_create(comm,prec,ptr) bind(c)
  use iso_c_binding
  use fft2d_wrap
  integer(c_int), value :: comm,prec
  type(c_ptr) :: ptr
  call fft2d_create(comm,prec,ptr)
end subroutine
subroutine fd_fft2d_destroy(ptr) bind(c)
  use iso_c_binding
  use fft2d_wrap
  type(c_ptr), value :: ptr
  call fft2d_destroy(ptr)
end subroutine
subroutine fd_fft2d_set(ptr,keyword,val) bind(c)
  use iso_c_binding
  use fft2d_wrap
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  integer(c_int), value :: val
  call fft2d_set(ptr,keyword,val)
end subroutine
function fd_fft2d_get_int(ptr,keyword) bind(c)
  use iso_c_binding
  use fft2d_wrap
  integer(c_int) :: fd_fft2d_get_int
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  fd_fft2d_get_int = fft2d_get_int(ptr,keyword)
end function
function fd_fft2d_get_double(ptr,keyword) bind(c)
  use iso_c_binding
  use fft2d_wrap
  real(c_double) :: fd_fft2d_get_double
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  fd_fft2d_get_double = fft2d_get_double(ptr,keyword)
end function
function fd_fft2d_get_int64(ptr,keyword) bind(c)
  use iso_c_binding
  use fft2d_wrap
  integer(c_int64_t) :: fd_fft2d_get_int64
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  fd_fft2d_get_int64 = fft2d_get_int64(ptr,keyword)
end function
function fd_fft2d_get_string(ptr,keyword,len) bind(c)
  use iso_c_binding
  use fft2d_wrap
  type(c_ptr) :: fd_fft2d_get_string
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  integer(c_int) :: len
  fd_fft2d_get_string = fft2d_get_string(ptr,keyword,len)
end function
function fd_fft2d_get_int_vector(ptr,keyword,len) bind(c)
  use iso_c_binding
  use fft2d_wrap
  type(c_ptr) :: fd_fft2d_get_int_vector
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  integer(c_int) :: len
  fd_fft2d_get_int_vector = fft2d_get_int_vector(ptr,keyword,len)
end function
function fd_fft2d_get_double_vector(ptr,keyword,len) bind(c)
  use iso_c_binding
  use fft2d_wrap
  type(c_ptr) :: fd_fft2d_get_double_vector
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  integer(c_int) :: len
  fd_fft2d_get_double_vector = fft2d_get_double_vector(ptr,keyword,len)
end function
subroutine fd_fft2d_setup(ptr,box,n,permute,fftsize,sendsize,recvsize) bind(c)
  use iso_c_binding
  use fft2d_wrap
  type(c_ptr), value :: ptr
  integer(c_int) :: box(*),n(*)
  integer(c_int), value :: permute
  integer(c_int) :: fftsize,sendsize,recvsize
  call fft2d_setup(ptr,n(1),n(2), &
    box(1)+1,box(2)+1,box(3)+1,box(4)+1, &
    box(5)+1,box(6)+1,box(7)+1,box(8)+1, &
    permute,fftsize,sendsize,recvsize)
end subroutine
subroutine fd_fft2d_tune(ptr,box,n,permute,fftsize,sendsize,recvsize, &
    flag,niter,tmax,tflag) bind(c)
  use iso_c_binding
  use fft2d_wrap
  type(c_ptr), value :: ptr
  integer(c_int) :: box(*),n(*)
  integer(c_int), value :: permute,flag,niter,tflag
  real(c_double), value :: tmax
  integer(c_int) :: fftsize,sendsize,recvsize
  call fft2d_tune(ptr,n(1),n(2), &
    box(1)+1,box(2)+1,box(3)+1,box(4)+1, &
    box(5)+1,box(6)+1,box(7)+1,box(8)+1, &
    permute,fftsize,sendsize,recvsize,flag,niter,tmax,tflag)
end subroutine
subroutine fd_fft2d_setup_memory(ptr,a,b) bind(c)
  use iso_c_binding
  use fft2d_wrap
  type(c_ptr), value :: ptr,a,b
  call fft2d_setup_memory(ptr,a,b)
end subroutine
subroutine fd_fft2d_compute(ptr,a,b,flag) bind(c)
  use iso_c_binding
  use fft2d_wrap
  type(c_ptr), value :: ptr,a,b
  integer(c_int), value :: flag
  call fft2d_compute(ptr,a,b,flag)
end subroutine
subroutine fd_fft2d_only_1d_ffts(ptr,a,flag) bind(c)
  use iso_c_binding
  use fft2d_wrap
  type(c_ptr), value :: ptr,a
  integer(c_int), value :: flag
  call fft2d_only_1d_ffts(ptr,a,flag)
end subroutine
subroutine fd_fft2d_only_remaps(ptr,a,b,flag) bind(c)
  use iso_c_binding
  use fft2d_wrap
  type(c_ptr), value :: ptr,a,b
  integer(c_int), value :: flag
  call fft2d_only_remaps(ptr,a,b,flag)
end subroutine
subroutine fd_fft2d_only_one_remap(ptr,a,b,flag,which) bind(c)
  use iso_c_binding
  use fft2d_wrap
  type(c_ptr), value :: ptr,a,b
  integer(c_int), value :: flag,which
  call fft2d_only_one_remap(ptr,a,b,flag,which)
end subroutine


subroutine fd_remap3d_create(comm,ptr) bind(c)
  use iso_c_binding
  use remap3d_wrap
  integer(c_int), value :: comm
  type(c_ptr) :: ptr
  call remap3d_create(comm,ptr)
end subroutine
subroutine fd_remap3d_destroy(ptr) bind(c)
  use iso_c_binding
  use remap3d_wrap
  type(c_ptr), value :: ptr
  call remap3d_destroy(ptr)
end subroutine
subroutine fd_remap3d_set(ptr,keyword,val) bind(c)
  use iso_c_binding
  use remap3d_wrap
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  integer(c_int), value :: val
  call remap3d_set(ptr,keyword,val)
end subroutine
subroutine fd_remap3d_setup(ptr,box,nqty,permute,mem,sendsize,recvsize) bind(c)
  use iso_c_binding
  use remap3d_wrap
  type(c_ptr), value :: ptr
  integer(c_int) :: box(*)
  integer(c_int), value :: nqty,permute,mem
  integer(c_int) :: sendsize,recvsize
  call remap3d_setup(ptr, &
    box(1)+1,box(2)+1,box(3)+1,box(4)+1,box(5)+1,box(6)+1, &
    box(7)+1,box(8)+1,box(9)+1,box(10)+1,box(11)+1,box(12)+1, &
    nqty,permute,mem,sendsize,recvsize)
end subroutine
subroutine fd_remap3d_remap(ptr,a,b,s,r) bind(c)
  use iso_c_binding
  use remap3d_wrap
  type(c_ptr), value :: ptr,a,b,s,r
  call remap3d_remap(ptr,a,b,s,r)
end subroutine


subroutine fd_remap2d_create(comm,ptr) bind(c)
  use iso_c_binding
  use remap2d_wrap
  integer(c_int), value :: comm
  type(c_ptr) :: ptr
  call remap2d_create(comm,ptr)
end subroutine
subroutine fd_remap2d_destroy(ptr) bind(c)
  use iso_c_binding
  use remap2d_wrap
  type(c_ptr), value :: ptr
  call remap2d_destroy(ptr)
end subroutine
subroutine fd_remap2d_set(ptr,keyword,val) bind(c)
  use iso_c_binding
  use remap2d_wrap
  type(c_ptr), value :: ptr
  character(c_char) :: keyword(*)
  integer(c_int), value :: val
  call remap2d_set(ptr,keyword,val)
end subroutine
subroutine fd_remap2d_setup(ptr,box,nqty,permute,mem,sendsize,recvsize) bind(c)
  use iso_c_binding
  use remap2d_wrap
  type(c_ptr), value :: ptr
  integer(c_int) :: box(*)
  integer(c_int), value :: nqty,permute,mem
  integer(c_int) :: sendsize,recvsize
  call remap2d_setup(ptr, &
    box(1)+1,box(2)+1,box(3)+1,box(4)+1, &
    box(5)+1,box(6)+1,box(7)+1,box(8)+1, &
    nqty,permute,mem,sendsize,recvsize)
end subroutine
subroutine fd_remap2d_remap(ptr,a,b,s,r) bind(c)
  use iso_c_binding
  use remap2d_wrap
  type(c_ptr), value :: ptr,a,b,s,r
  call remap2d_remap(ptr,a,b,s,r)
end subroutine
